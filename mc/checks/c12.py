"""C12: graph pattern matching and replacement preserve meaning."""

import copy
import itertools

from mc import core

if core.WORKER:
  from autobound import graph_editor
  from autobound.graph_editor import ComputationGraph, Operation

BOUNDS = {
    'quick': 'match: all patterns and subjects with 1-2 operations over two '
             'operation types and 3 variables plus a constant; replace: all '
             'SSA subject graphs with up to 4 operations (5 in thorough) of a '
             'unary and a binary type and up to 3 operations including a '
             'two-output type and constants, every set of up to 2 outputs, '
             '23 patterns of 1-3 operations, 5 forms of equivalent '
             'replacement, 3 naming schemes',
}
ASSUMPTIONS = ['operations are interpreted in the free term algebra, so equal '
               'values mean equal for every interpretation']


def tasks(tier):
  ts = core.shards('matching', 8)
  ts += core.shards('longer_match', 4)
  ts += core.shards('replacing', 24)
  ts += core.shards('multi_output', 16)
  ts += core.shards('repeated', 8)
  return ts


def run_task(task, stats):
  global TIER
  TIER = task.get('tier', 'quick')
  core.simple_run_task(SPACES, task, stats)


def is_const(v):
  return isinstance(v, str) and v.startswith('K')


def can_bind(u, v):
  return u == v if is_const(u) else not is_const(v)


# --- match -------------------------------------------------------------------


def ops_equal(a, b):
  return len(a) == len(b) and all(
      x.data == y.data and list(x.inputs) == list(y.inputs) and
      list(x.outputs) == list(y.outputs) for x, y in zip(a, b))


def brute_match(pattern, subject):
  """All substitutions, by enumeration."""
  pv = sorted({v for e in pattern for v in list(e.inputs) + list(e.outputs)}, key=repr)
  sv = sorted({v for e in subject for v in list(e.inputs) + list(e.outputs)}, key=repr)
  found = []
  for image in itertools.product(sv, repeat=len(pv)):
    m = dict(zip(pv, image))
    if all(can_bind(u, v) for u, v in m.items()):
      if ops_equal([substitute(e, m) for e in pattern], subject):
        found.append(m)
  return found


def substitute(e, m):
  return Operation(e.data, [m.get(u, u) for u in e.inputs],
                   [m.get(u, u) for u in e.outputs])


def any_op(ch, names, tag):
  data = ch.pick(['f', 'g'])
  if data == 'f':
    return Operation('f', [ch.pick(names)], [ch.pick(names[:-1])])
  return Operation('g', [ch.pick(names), ch.pick(names)],
                   [ch.pick(names[:-1])])


def matching(ch):
  """match against brute force: arbitrary (not only SSA) sequences."""
  pnames, snames = ch.pick([(['a', 'b', 'K0'], ['x', 'y', 'K0']),
                            (['a', 0, 'K0'], [0, '', 'K0'])])
  n = ch.choose(2) + 1
  first = any_op(ch, pnames, 'p')
  ch.shard()
  pattern = [first] + [any_op(ch, pnames, 'p') for _ in range(n - 1)]
  if n == 1:
    pattern_menu = [pattern]
  else:
    pattern_menu = [pattern]
  # subjects: all sequences of one or two operations
  ops = ALL_SUBJECT_OPS(snames + ['K1'])
  for p in pattern_menu:
    subjects = ([[o] for o in ops] + [[]] if n == 1 else
                [[o, q] for o in ops for q in ops
                 if o.data == p[0].data and q.data == p[1].data][::1])
    if n == 2 and len(subjects) > 200:
      # keep subjects whose first operation matches, plus every 7th other
      subjects = [s for i, s in enumerate(subjects) if i % 7 == 0 or
                  brute_match(p[:1], s[:1])]
      if TIER != 'thorough':
        subjects = subjects[::3] if len(subjects) > 400 else subjects
    for s in subjects:
      ch.count(1, 1)
      got = graph_editor.match(p, s, can_bind)
      want = brute_match(p, s)
      if len(want) > 1:
        raise AssertionError('ambiguous oracle')
      if (got is None) != (not want):
        ch.fail('decision', f'pattern {p} subject {s}: {got}, brute force '
                f'finds {want}')
      if got is not None and dict(got) != want[0]:
        ch.fail('substitution', f'pattern {p} subject {s}: {got}, expected '
                f'{want[0]}')
      ch.outcome(repr(got))


_OPS = {}


def ALL_SUBJECT_OPS(names):
  key = tuple(names)
  if key not in _OPS:
    variables = [v for v in names if not is_const(v)]
    out = [Operation('f', [i], [o]) for i in names for o in variables]
    out += [Operation('g', [i, j], [o]) for i in names for j in names
            for o in variables]
    _OPS[key] = out
  return _OPS[key]


def longer_match(ch):
  """Differences in length, arity and data, and patterns of three operations."""
  k = ch.choose(3) + 1
  shape = [ch.pick([('f', 1, 1), ('g', 2, 1), ('f', 1, 2), ('f', 2, 1)])
           for _ in range(k)]
  ch.shard()
  # chain: each operation consumes the previous output(s)
  def build(prefix, shape):
    out, prev = [], [prefix + 'in']
    for i, (d, ni, no) in enumerate(shape):
      outs = [f'{prefix}{i}{j}' for j in range(no)]
      ins = [prev[j % len(prev)] for j in range(ni)]
      out.append(Operation(d, ins, outs))
      prev = outs
    return out
  pattern = build('p', shape)
  for n in range(k + 2):
    for other in itertools.product(
        [('f', 1, 1), ('g', 2, 1), ('f', 1, 2), ('f', 2, 1)], repeat=min(n, 3)):
      subject = build('s', list(other))
      ch.count(1, 1)
      got = graph_editor.match(pattern, subject, can_bind)
      same = tuple(other) == tuple(shape)
      if (got is not None) != same:
        ch.fail('shape', f'{shape} against {other}: {got}')
      if got is not None and not ops_equal(
          [substitute(e, got) for e in pattern], subject):
        ch.fail('subst', f'{got}')
      # binding refused for any one pattern variable: no match
      if got is not None:
        for u in list(got):
          if graph_editor.match(pattern, subject,
                                lambda a, b, u=u: a != u) is not None:
            ch.fail('can_bind', f'binding of {u} refused but matched')
      ch.outcome(repr(got))


# --- replace ------------------------------------------------------------------
# Pattern: (operations, inputs).  Variables a, b are inputs.

PATTERNS = [
    [('f', 'a', 'c')],
    [('g', 'ab', 'c')],
    [('g', 'aa', 'c')],
    [('g', 'aK', 'c')],
    [('f', 'K', 'c')],
    [('f', 'a', 'c'), ('f', 'c', 'd')],
    [('f', 'a', 'c'), ('f', 'b', 'd')],
    [('f', 'a', 'c'), ('f', 'a', 'd')],
    [('f', 'a', 'c'), ('g', 'ac', 'd')],
    [('f', 'a', 'c'), ('g', 'ca', 'd')],
    [('f', 'a', 'c'), ('g', 'cb', 'd')],
    [('f', 'a', 'c'), ('g', 'cc', 'd')],
    [('g', 'ab', 'c'), ('f', 'c', 'd')],
    [('g', 'aa', 'c'), ('f', 'c', 'd')],
    [('g', 'ab', 'c'), ('g', 'ca', 'd')],
    [('g', 'ab', 'c'), ('g', 'cb', 'd')],
    [('f', 'a', 'c'), ('f', 'c', 'd'), ('g', 'cd', 'e')],
    [('f', 'a', 'c'), ('g', 'ac', 'd'), ('f', 'd', 'e')],
    [('f', 'a', 'c'), ('f', 'b', 'd'), ('g', 'cd', 'e')],
]
PATTERNS2 = [
    [('s', 'a', 'cd')],
    [('s', 'a', 'cd'), ('g', 'cd', 'e')],
    [('s', 'a', 'cd'), ('g', 'dc', 'e')],
    [('s', 'a', 'cd'), ('f', 'c', 'e')],
]


def make(p):
  name = lambda v: 'K0' if v == 'K' else v
  return [Operation(d, [name(v) for v in i], list(o)) for d, i, o in p]


def split_inputs(pattern):
  """Pattern inputs and produced variables, in order of appearance."""
  produced, inputs = [], []
  for e in pattern:
    for v in e.inputs:
      if v not in produced and v not in inputs and not is_const(v):
        inputs.append(v)
    produced += e.outputs
  return inputs, produced


REPLACEMENTS = ['all_outputs', 'last_output', 'two_steps', 'same', 'reordered']


def make_replacement(kind, pattern):
  """Operations equivalent to the pattern, for the outputs they produce.

  'new*' operations are interpreted by `interpret` below.
  """
  inputs, produced = split_inputs(pattern)
  key = tuple((e.data, tuple(e.inputs), tuple(e.outputs)) for e in pattern)
  if kind == 'all_outputs':
    return [Operation(('new', key, tuple(inputs), tuple(produced)), inputs,
                      list(produced))]
  if kind == 'last_output':
    return [Operation(('new', key, tuple(inputs), tuple(produced[-1:])),
                      inputs, produced[-1:])]
  if kind == 'two_steps':
    # pack the inputs in a new variable t, then unpack
    return [Operation(('pack', len(inputs)), inputs, ['t']),
            Operation(('unpack', key, tuple(inputs), tuple(produced[-1:])),
                      ['t'], produced[-1:])]
  if kind == 'same':
    # the same computation with other internal names
    m = {v: f't{i}' for i, v in enumerate(produced[:-1])}
    return [substitute(e, m) for e in pattern]
  if kind == 'reordered':
    # last output first, then the others
    rest = produced[:-1]
    ops = [Operation(('new', key, tuple(inputs), tuple(produced[-1:])), inputs,
                     produced[-1:])]
    if rest:
      ops.append(Operation(('new', key, tuple(inputs), tuple(rest)), inputs,
                           rest))
    return ops
  raise ValueError(kind)


def interpret(data, args, n_out, table):
  """Values (hash-consed term ids) of an operation's outputs."""
  def term(*t):
    return table.setdefault(t, len(table))
  if isinstance(data, tuple) and data[0] == 'pack':
    return [('packed',) + tuple(args)]
  if isinstance(data, tuple) and data[0] in ('new', 'unpack'):
    _, key, inputs, outs = data
    if data[0] == 'unpack':
      args = args[0][1:]
    env = dict(zip(inputs, args))
    env['K0'] = term('const', 'K0')
    for d, ins, os_ in key:
      vals = [env[v] for v in ins]
      for j, o in enumerate(os_):
        env[o] = term(d, j, *vals)
    return [env[o] for o in outs]
  return [term(data, j, *args) for j in range(n_out)]


class IllFormed(Exception):
  pass


def evaluate(inputs, outputs, operations, table):
  env = {}
  def read(v):
    if is_const(v):
      return table.setdefault(('const', v), len(table))
    if v not in env:
      raise IllFormed(f'{v!r} used before definition')
    return env[v]
  for v in inputs:
    if v in env:
      raise IllFormed(f'duplicate input {v!r}')
    env[v] = table.setdefault(('input', v), len(table))
  for e in operations:
    args = [read(v) for v in e.inputs]
    vals = interpret(e.data, args, len(e.outputs), table)
    if len(vals) != len(e.outputs):
      raise IllFormed('arity')
    for v, t in zip(e.outputs, vals):
      if v in env or is_const(v):
        raise IllFormed(f'{v!r} defined twice')
      env[v] = t
  return [read(v) for v in outputs]


def simple_match(pattern, ops):
  """Reference matcher: simultaneous unification of the two op lists."""
  if len(pattern) != len(ops):
    return None
  eqs = []
  for p, s in zip(pattern, ops):
    if p.data != s.data or len(p.inputs) != len(s.inputs) or (
        len(p.outputs) != len(s.outputs)):
      return None
    eqs += list(zip(p.inputs, s.inputs)) + list(zip(p.outputs, s.outputs))
  m = {}
  for u, v in eqs:
    m.setdefault(u, set()).add(v)
  if any(len(v) > 1 for v in m.values()):
    return None
  m = {u: next(iter(v)) for u, v in m.items()}
  if not all(can_bind(u, v) for u, v in m.items()):
    return None
  return m


def reference_replace(pattern, replacement, g):
  """Greedy left-to-right replacement; an occurrence is replaced iff the
  resulting graph is well formed.  Internal variables become ('int', n)."""
  out, i, n, k, count = [], 0, 0, len(pattern), 0
  while i < len(g.operations):
    m = simple_match(pattern, g.operations[i:i + k])
    done = False
    if m is not None:
      m = dict(m)
      fresh = n
      for e in replacement:
        for v in e.outputs:
          if v not in m:
            m[v] = ('int', fresh)
            fresh += 1
      cand = [substitute(e, m) for e in replacement]
      try:
        evaluate(g.inputs, g.outputs, out + cand + list(g.operations[i + k:]),
                 {})
        done = True
      except IllFormed:
        pass
    if done:
      out += cand
      n = fresh
      i += k
      count += 1
    else:
      out.append(g.operations[i])
      i += 1
  return out, count


def same_up_to_internals(got, want):
  if len(got) != len(want):
    return False
  m, inv = {}, {}
  def same(u, v):
    if isinstance(v, tuple) and v and v[0] == 'int':
      if v in m:
        return m[v] == u
      if u in inv:
        return False
      m[v] = u
      inv[u] = v
      return True
    return u == v
  for a, b in zip(got, want):
    if a.data != b.data or len(a.inputs) != len(b.inputs) or (
        len(a.outputs) != len(b.outputs)):
      return False
    for u, v in itertools.chain(zip(a.inputs, b.inputs),
                                zip(a.outputs, b.outputs)):
      if not same(u, v):
        return False
  return True


def check_replace(ch, pattern, replacement, g, what):
  frozen = copy.deepcopy((pattern, replacement, g))
  ch.count(1, 1)
  r = graph_editor.replace(pattern, replacement, g, can_bind)
  if (pattern, replacement, g) != frozen:
    ch.fail('mutated', f'{what}: arguments were modified')
  describe = lambda: (f'pattern {frozen[0]}\nreplacement {frozen[1]}\nsubject '
                      f'{frozen[2]}\nresult {r}')
  if list(r.inputs) != list(g.inputs) or list(r.outputs) != list(g.outputs):
    ch.fail('interface', describe())
  if r.data != g.data:
    ch.fail('data', describe())
  table = {}
  before = evaluate(g.inputs, g.outputs, g.operations, table)
  try:
    after = evaluate(r.inputs, r.outputs, r.operations, table)
  except IllFormed as e:
    ch.fail('ill-formed', f'{e}\n{describe()}')
  if before != after:
    ch.fail('meaning', describe())
  want, count = reference_replace(pattern, replacement, g)
  if not same_up_to_internals(r.operations, want):
    ch.fail('structure', f'{describe()}\nexpected {want}')
  return count


NAMES = {
    'plain': ['x', 'y', 'v0', 'v1', 'v2', 'v3', 'v4', 'v5', 'v6', 'v7'],
    # subject variables named like pattern and replacement variables
    'pattern': ['b', 'a', 'd', 'c', 'e', 't', 't0', 't1', 'z0', 'z1'],
    'internal': ['t', 't0', 'c', 't1', ('t', 1), ('t0', 1), 'a', ('t', 2), 'b',
                 'd'],
    # any hashable is a variable, also one that is false in a condition
    'falsy': [0, '', (), 'v1', frozenset(), 1, 'a', (0,), 'b', -1],
}


def subject_graph(ch, n_ops, types, n_inputs, consts, names, last=None):
  """Every SSA graph with n_ops operations."""
  names = NAMES[names]
  avail = names[:n_inputs]
  nxt = n_inputs
  ops = []
  for i in range(n_ops):
    d = ch.pick(types)
    args = avail + consts
    if d == 'f':
      ins = [ch.pick(args)]
    elif d == 's':
      ins = [ch.pick(args)]
    else:
      ins = [ch.pick(args), ch.pick(args)]
    outs = names[nxt:nxt + (2 if d == 's' else 1)]
    nxt += len(outs)
    ops.append(Operation(d, ins, outs))
    avail = avail + outs
    if i == 1:
      ch.shard()
  return ops, avail


def output_sets(avail, n_inputs):
  """The last variable, plus at most one more."""
  last = avail[-1]
  return [[last]] + [[last, v] for v in avail[:-1]]


def replacing(ch):
  n_ops = ch.choose(5 if TIER == 'thorough' else 4) + 1
  if n_ops == 1:
    ch.shard()
  ops, avail = subject_graph(ch, n_ops, ['f', 'g'], 1, [], 'plain')
  scheme = 0
  total = 0
  for p in PATTERNS:
    if any('K' in i for _, i, _ in p):
      continue
    pattern = make(p)
    ks = [''.join(d for d, _, _ in p)]
    if ks[0] not in ''.join(o.data for o in ops):
      # no contiguous match is possible: one call suffices
      g = ComputationGraph(avail[:1], avail[-1:], ops, data='D')
      total += check_replace(ch, pattern, make_replacement('last_output',
                                                           pattern), g, 'none')
      continue
    for kind in REPLACEMENTS:
      replacement = make_replacement(kind, pattern)
      for outs in output_sets(avail, 1):
        g = ComputationGraph(avail[:1], outs, ops, data='D')
        total += check_replace(ch, pattern, replacement, g, kind)
  ch.outcome((n_ops, total))
  ch.state(repr(ops))


def multi_output(ch):
  """Graphs with a two-output operation, two inputs and constants."""
  names = ch.pick(list(NAMES))
  n_ops = ch.choose(3) + 1
  n_inputs = ch.choose(2) + 1
  if n_ops == 1:
    ch.shard()
  if n_ops == 3 and n_inputs == 2 and TIER != 'thorough':
    types = ['f', 's'] if names != 'plain' else ['f', 'g']
  else:
    types = ['f', 'g', 's']
  consts = ['K0'] if n_ops < 3 or n_inputs == 1 and names == 'plain' else []
  ops, avail = subject_graph(ch, n_ops, types, n_inputs,
                             consts + (['K1'] if n_ops < 3 else []), names)
  total = 0
  text = ''.join(o.data for o in ops)
  for p in PATTERNS + PATTERNS2:
    pattern = make(p)
    if ''.join(d for d, _, _ in p) not in text:
      continue
    for kind in REPLACEMENTS:
      replacement = make_replacement(kind, pattern)
      for outs in output_sets(avail, n_inputs)[:4]:
        g = ComputationGraph(avail[:n_inputs], outs, ops)
        total += check_replace(ch, pattern, replacement, g, kind)
  ch.outcome((n_ops, total))
  ch.state(repr(ops))


def repeated(ch):
  """Chains with many occurrences, overlaps, and replacements applied twice."""
  n = ch.choose(7) + 1
  word = [ch.pick(['f', 'h']) for _ in range(n)]
  ch.shard()
  names = ch.pick(list(NAMES))
  nm = NAMES[names]
  ops = [Operation(d, [nm[i]], [nm[i + 1]]) for i, d in enumerate(word)]
  for p in ([('f', 'a', 'c')], [('f', 'a', 'c'), ('f', 'c', 'd')],
            [('f', 'a', 'c'), ('h', 'c', 'd')],
            [('f', 'a', 'c'), ('f', 'c', 'd'), ('f', 'd', 'e')],
            [('f', 'a', 'c'), ('h', 'c', 'd'), ('f', 'd', 'e')]):
    pattern = make(p)
    for kind in REPLACEMENTS:
      replacement = make_replacement(kind, pattern)
      for outs in output_sets(nm[:n + 1], 1):
        g = ComputationGraph([nm[0]], outs, ops)
        check_replace(ch, pattern, replacement, g, kind)
        # a second pass over the result stays well formed and equal in meaning
        r = graph_editor.replace(pattern, replacement, g, can_bind)
        check_replace(ch, pattern, replacement, r, kind + ' twice')
    # an empty pattern is refused (it occurs everywhere)
  g = ComputationGraph([nm[0]], [nm[n]], ops)
  ch.check(g.intermediate_variables() == set(nm[:n + 1]), 'variables')
  # an empty replacement removes operations whose results are not used
  pattern = make([('f', 'a', 'c')])
  check_replace(ch, pattern, [], g, 'empty replacement')
  ch.outcome(tuple(word))


SPACES = dict(matching=matching, longer_match=longer_match,
              replacing=replacing, multi_output=multi_output,
              repeated=repeated)
