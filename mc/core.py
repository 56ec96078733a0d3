"""Exhaustive explorer, parallel runner and evidence writer.

A check is a set of *spaces*.  A space is a driver: a Python function that
receives a `Chooser` and makes every nondeterministic decision (which program,
which operation next, which operand, which schedule step) through
`ch.choose(n)`.  The explorer runs the driver once for every possible sequence
of answers (depth-first enumeration of the whole choice tree), calling the real
implementation under test in every execution and comparing it with a reference
model or an invariant.  Nothing is sampled: VERIF_SEED only permutes the order
in which shards are visited.

Spaces are split over worker processes with `ch.shard()`: prefixes of choices
made before that call are numbered and dealt out round robin.
"""

import json
import hashlib
import os
import random
import selectors
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('AUTOBOUND_REPO', '/repo')
WORKER = '--worker' in sys.argv[:2]
KNOWN_FINDINGS = os.path.join(VERIF, 'known_findings.txt')


class Prune(Exception):
  """The current execution is not part of this shard, or is redundant."""


class Violation(Exception):
  """Raised by a driver to report that the property does not hold."""

  def __init__(self, key, msg):
    super().__init__(msg)
    self.key = key
    self.msg = msg


class Chooser:
  """Answers nondeterministic choices by replaying a prefix, then 0."""

  def __init__(self, prefix, stats, shard=None):
    self.prefix = prefix
    self.trace = []      # list of (choice, arity)
    self.labels = []
    self.stats = stats
    self.shard_spec = shard
    self.cache = None    # per-space scratch, set by explore()

  def choose(self, n, label=None):
    if n <= 0:
      raise Prune()
    i = len(self.trace)
    c = self.prefix[i] if i < len(self.prefix) else 0
    if c >= n:
      raise RuntimeError(f'replay divergence: choice {c} of {n} at {i}')
    self.trace.append((c, n))
    self.labels.append(label)
    return c

  def pick(self, seq, label=None):
    seq = list(seq) if not isinstance(seq, (list, tuple)) else seq
    v = seq[self.choose(len(seq))]
    self.labels[-1] = label if label is not None else v
    return v

  def flag(self):
    return bool(self.choose(2))

  def shard(self):
    if self.shard_spec is None:
      return
    index, count, counter = self.shard_spec
    prefix = tuple(c for c, _ in self.trace)
    if prefix != counter.get('last'):
      counter['last'] = prefix
      counter['n'] = counter.get('n', -1) + 1
    if counter['n'] % count != index:
      raise Prune()

  def fail(self, key, msg):
    raise Violation(key, msg)

  def check(self, cond, key, msg=''):
    self.stats['evaluations'] += 1
    if not cond:
      raise Violation(key, msg() if callable(msg) else msg)

  def count(self, transitions=None, evaluations=0):
    if transitions is None:
      transitions = 0 if evaluations else 1
    self.stats['transitions'] += transitions
    self.stats['evaluations'] += evaluations

  def outcome(self, obj):
    """Record an observed outcome (for the distinct-outcome count)."""
    if not isinstance(obj, bytes):
      obj = repr(obj).encode()
    self.stats['outcomes'].add(hashlib.blake2b(obj, digest_size=8).hexdigest())

  def state(self, obj):
    """Record a distinct state reached; True if it is new in this shard."""
    if not isinstance(obj, bytes):
      obj = repr(obj).encode()
    h = hashlib.blake2b(obj, digest_size=8).hexdigest()
    new = h not in self.stats['states']
    self.stats['states'].add(h)
    return new


def new_stats():
  return {'transitions': 0, 'evaluations': 0, 'executions': 0,
          'outcomes': set(), 'states': set(), 'choice_points': 0,
          'samples': [], 'violations': [], 'pruned': 0, 'capped': False}


def explore(driver, stats, shard=None, deadline=None, max_violations=3,
            prefix=(), single=False, known=()):
  """Enumerates every execution of `driver`; known findings do not stop it."""
  counter = {}
  cache = {}
  prefix = list(prefix)
  keys = set()
  while True:
    if deadline is not None and time.time() > deadline:
      stats['capped'] = True
      return
    ch = Chooser(prefix, stats,
                 None if shard is None else (shard[0], shard[1], counter))
    ch.cache = cache
    try:
      driver(ch)
      stats['executions'] += 1
      if len(stats['samples']) < 2 or (
          stats['executions'] % 997 == 0 and len(stats['samples']) < 6):
        stats['samples'].append(_sample(ch))
    except Prune:
      stats['pruned'] += 1
    except Violation as v:
      stats['executions'] += 1
      if v.key not in keys:
        keys.add(v.key)
        stats['violations'].append({
            'key': v.key, 'msg': str(v.msg)[:2000],
            'choices': [c for c, _ in ch.trace],
            'labels': [str(l) for l in ch.labels]})
    except (KeyboardInterrupt, SystemExit):
      raise
    except BaseException as e:  # pylint: disable=broad-except
      # The driver expected success: an exception escaping from the
      # implementation (or from reading what it returned) is a violation.
      key = f'exception:{type(e).__name__}'
      stats['executions'] += 1
      if key not in keys:
        keys.add(key)
        stats['violations'].append({
            'key': key, 'msg': traceback.format_exc()[-3000:],
            'choices': [c for c, _ in ch.trace],
            'labels': [str(l) for l in ch.labels]})
    stats['choice_points'] += max(0, len(ch.trace) - _common(prefix, ch.trace))
    if single or len(keys.difference(known)) >= max_violations:
      return
    # Next leaf, depth first.
    trace = ch.trace
    while trace and trace[-1][0] + 1 >= trace[-1][1]:
      trace.pop()
    if not trace:
      return
    prefix = [c for c, _ in trace]
    prefix[-1] += 1


def _common(prefix, trace):
  return min(max(len(prefix) - 1, 0), len(trace))


def _sample(ch):
  return {'choices': [c for c, _ in ch.trace],
          'labels': [str(l)[:60] for l in ch.labels if l is not None][:24]}


# ---------------------------------------------------------------------------
# Worker process.
# ---------------------------------------------------------------------------


def worker_main():
  out = os.fdopen(os.dup(1), 'w')
  os.dup2(2, 1)
  check = sys.argv[2]
  try:
    module = _load(check)
    err = None
  except BaseException:  # pylint: disable=broad-except
    err = traceback.format_exc()
  if err is not None:
    out.write(json.dumps({'import_error': err[-3000:]}) + '\n')
    out.flush()
    return
  out.write(json.dumps({'ready': True}) + '\n')
  out.flush()
  for line in sys.stdin:
    task = json.loads(line)
    stats = new_stats()
    t0 = time.time()
    try:
      module.run_task(task, stats)
    except BaseException as e:  # pylint: disable=broad-except
      stats['violations'].append({
          'key': f'exception:{type(e).__name__}',
          'msg': traceback.format_exc()[-3000:], 'choices': [], 'labels': []})
    stats['seconds'] = time.time() - t0
    stats['outcomes'] = sorted(stats['outcomes'])
    stats['states'] = sorted(stats['states'])
    out.write(json.dumps({'task': task, 'stats': stats}) + '\n')
    out.flush()


def _load(check):
  import importlib
  return importlib.import_module(f'mc.checks.{check.lower()}')


def worker_env(scratch, mode):
  env = dict(os.environ)
  env.update({
      'JAX_PLATFORMS': 'cpu',
      'PYTHONDONTWRITEBYTECODE': '1',
      'PYTHONPYCACHEPREFIX': os.path.join(scratch, 'pyc'),
      'PYTHONPATH': os.pathsep.join([VERIF, REPO]),
      'PYTHONHASHSEED': '0',
      'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
      'MKL_NUM_THREADS': '1',
      'TF_CPP_MIN_LOG_LEVEL': '3',
      'PYTHONWARNINGS': 'ignore',
      'JAX_ENABLE_X64': '0' if mode.startswith('x32') else '1',
      'MC_MODE': mode,
      'HOME': scratch, 'TMPDIR': scratch,
  })
  flags = ('--xla_cpu_multi_thread_eigen=false '
           '--xla_backend_optimization_level=0 '
           '--xla_cpu_parallel_codegen_split_count=1 '
           'intra_op_parallelism_threads=1')
  # Programs compiled by one worker are reused by the others of this run.
  env['JAX_COMPILATION_CACHE_DIR'] = os.path.join(scratch, 'jax')
  env['JAX_PERSISTENT_CACHE_MIN_COMPILE_TIME_SECS'] = '0'
  env['JAX_PERSISTENT_CACHE_MIN_ENTRY_SIZE_BYTES'] = '-1'
  env['XLA_FLAGS'] = flags
  env['XDG_CACHE_HOME'] = scratch
  return env


class Worker:

  def __init__(self, check, mode, core, scratch):
    self.mode = mode
    self.core = core
    self.task = None
    self.started = None
    self.errfile = open(os.path.join(scratch, f'worker{core}.err'), 'ab')
    def pre():
      try:
        os.sched_setaffinity(0, {core})
      except OSError:
        pass
    self.proc = subprocess.Popen(
        [sys.executable, '-m', 'mc', '--worker', check], cwd=VERIF,
        env=worker_env(scratch, mode), stdin=subprocess.PIPE,
        stdout=subprocess.PIPE, stderr=self.errfile, preexec_fn=pre,
        start_new_session=True)
    self.buffer = b''
    self.ready = False

  def send(self, task):
    self.task = task
    self.started = time.time()
    try:
      self.proc.stdin.write((json.dumps(task) + '\n').encode())
      self.proc.stdin.flush()
    except (BrokenPipeError, OSError):
      pass

  def close(self):
    try:
      os.killpg(self.proc.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
      pass
    self.proc.wait()
    for f in (self.proc.stdin, self.proc.stdout, self.errfile):
      try:
        f.close()
      except OSError:
        pass


# ---------------------------------------------------------------------------
# Parent.
# ---------------------------------------------------------------------------


def read_known(pid):
  """Returns {key: description} for the listed (unfixed) findings of pid."""
  known = {}
  if os.path.exists(KNOWN_FINDINGS):
    for line in open(KNOWN_FINDINGS):
      line = line.strip()
      if line.startswith(f'known: property={pid} '):
        rest = line[len(f'known: property={pid} '):]
        key, _, desc = rest.partition(' :: ')
        known[key.strip()] = desc.strip()
  return known


def run_check(check, tier, seed, verbose=False, only=None, jobs=None):
  pid = check.upper()
  module_tasks = _load(check)
  t0 = time.time()
  budget = getattr(module_tasks, 'BUDGET', {}).get(
      tier, 540 if tier == 'quick' else 6 * 3600)
  deadline = t0 + budget
  task_timeout = getattr(module_tasks, 'TASK_TIMEOUT', {}).get(
      tier, 300 if tier == 'quick' else 3600)
  tasks = module_tasks.tasks(tier)
  if only:
    tasks = [t for t in tasks if only in t['space']]
  rng = random.Random(seed)
  rng.shuffle(tasks)
  for i, t in enumerate(tasks):
    t['id'] = i
    t.setdefault('mode', 'x64')
    t['tier'] = tier
    t['deadline'] = deadline
  # Expensive tasks first, otherwise seed order; keep modes together.
  tasks.sort(key=lambda t: -t.get('cost', 1))
  known = read_known(pid)
  scratch = tempfile.mkdtemp(prefix=f'mc_{pid}_')
  try:
    cores = sorted(os.sched_getaffinity(0))
  except AttributeError:
    cores = list(range(os.cpu_count() or 1))
  if jobs:
    cores = cores[:jobs]
  total = new_stats()
  per_space = {}
  violations = []
  known_seen = {}
  import_error = None
  attempts = {}
  sel = selectors.DefaultSelector()
  workers = []
  pending = list(tasks)

  def take(mode):
    for i, t in enumerate(pending):
      if mode is None or t['mode'] == mode:
        return pending.pop(i)
    return None

  def spawn(core):
    if not pending:
      return
    counts = {}
    for w in workers:
      counts[w.mode] = counts.get(w.mode, 0) + 1
    need = {}
    for t in pending:
      need[t['mode']] = need.get(t['mode'], 0) + t.get('cost', 1)
    mode = max(need, key=lambda m: need[m] / (1 + counts.get(m, 0)))
    w = Worker(check, mode, core, scratch)
    workers.append(w)
    sel.register(w.proc.stdout, selectors.EVENT_READ, w)

  def drop(w):
    try:
      sel.unregister(w.proc.stdout)
    except (KeyError, ValueError):
      pass
    w.close()
    if w in workers:
      workers.remove(w)

  def record(task, stats):
    nonlocal violations
    name = task['space']
    ps = per_space.setdefault(name, {
        'executions': 0, 'transitions': 0, 'evaluations': 0,
        'choice_points': 0, 'distinct_states': set(), 'outcomes': set(),
        'tasks': 0, 'cpu_s': 0.0, 'capped': False})
    for k in ('executions', 'transitions', 'evaluations', 'choice_points'):
      ps[k] += stats[k]
      total[k] += stats[k]
    ps['tasks'] += 1
    ps['cpu_s'] += stats.get('seconds', 0)
    ps['capped'] = ps['capped'] or stats['capped']
    total['capped'] = total['capped'] or stats['capped']
    ps['distinct_states'].update(stats['states'])
    ps['outcomes'].update(stats['outcomes'])
    total['states'].update(name + h for h in stats['states'])
    total['outcomes'].update(name + h for h in stats['outcomes'])
    if len(total['samples']) < 12 and stats['samples']:
      if sum(s['space'] == name for s in total['samples']) < 2:
        total['samples'].append({'space': name, **stats['samples'][0]})
    for v in stats['violations']:
      v = {'space': name, 'task': task, **v}
      full = f'{name}:{v["key"]}'
      if full in known:
        known_seen[full] = known[full]
      else:
        violations.append(v)

  try:
    for core in cores:
      spawn(core)
    stop = False
    while workers and not stop:
      events = sel.select(timeout=1.0)
      now = time.time()
      for key, _ in events:
        w = key.data
        chunk = os.read(w.proc.stdout.fileno(), 1 << 20)
        if not chunk:
          # Worker died.
          task = w.task
          core = w.core
          drop(w)
          if task is not None:
            n = attempts[task['id']] = attempts.get(task['id'], 0) + 1
            if n >= 2:
              violations.append({
                  'space': task['space'], 'task': task, 'key': 'worker-died',
                  'msg': 'process died while running this shard',
                  'choices': [], 'labels': []})
              stop = True
            else:
              pending.insert(0, task)
          else:
            attempts['start'] = attempts.get('start', 0) + 1
            if attempts['start'] > 16:
              import_error = import_error or 'worker could not start'
              stop = True
          if not stop:
            spawn(core)
          continue
        w.buffer += chunk
        while b'\n' in w.buffer:
          line, w.buffer = w.buffer.split(b'\n', 1)
          msg = json.loads(line)
          if 'import_error' in msg:
            import_error = msg['import_error']
            stop = True
            break
          if 'stats' in msg:
            record(msg['task'], msg['stats'])
            if verbose:
              s = msg['stats']
              print(f"  [{now-t0:6.1f}s] {msg['task']['space']} "
                    f"{msg['task'].get('shard', '')} ex={s['executions']} "
                    f"ev={s['evaluations']} {s['seconds']:.1f}s "
                    f"viol={len(s['violations'])}", flush=True)
            w.task = None
          if violations:
            stop = True
            break
          fresh = w.mode.endswith('fresh') and 'stats' in msg
          nxt = None
          if now < deadline and not fresh:
            nxt = take(w.mode)
          if nxt is None:
            core = w.core
            drop(w)
            if now < deadline:
              spawn(core)
            break
          w.send(nxt)
        if stop:
          break
      if stop:
        break
      for w in list(workers):
        if w.task is not None and now - w.started > task_timeout:
          violations.append({
              'space': w.task['space'], 'task': w.task, 'key': 'timeout',
              'msg': f'shard did not finish within {task_timeout} s',
              'choices': [], 'labels': []})
          stop = True
      if now > deadline + 60:
        total['capped'] = True
        break
  finally:
    for w in list(workers):
      drop(w)
    sel.close()
    errs = ''
    for f in sorted(os.listdir(scratch)):
      if f.endswith('.err'):
        with open(os.path.join(scratch, f), 'rb') as fh:
          errs += fh.read()[-2000:].decode('utf8', 'replace')
    shutil.rmtree(scratch, ignore_errors=True)

  if import_error is not None:
    violations.append({'space': 'import', 'task': {}, 'key': 'import-error',
                       'msg': import_error, 'choices': [], 'labels': []})
  exhaustive = (not pending and not total['capped'] and not violations)
  wall = time.time() - t0
  evidence = {
      'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
      'coverage': {
          'states': len(total['states']) + total['choice_points'],
          'distinct_implementation_states': len(total['states']),
          'transitions': total['transitions'],
          'traces_validated_against_impl': total['executions'],
          'evaluations': total['evaluations'],
          'distinct_outcomes': len(total['outcomes']),
          'exhaustive': exhaustive,
          'tasks_not_run': len(pending),
          'bounds': getattr(module_tasks, 'BOUNDS', {}).get(
              tier, getattr(module_tasks, 'BOUNDS', {}).get('quick', '')),
          'counting': (
              'states: nodes of the explored choice tree, plus distinct '
              'implementation states recorded where states are canonicalised; '
              'transitions: calls of the real implementation; '
              'traces_validated_against_impl: complete executions of the '
              'implementation compared with the reference; evaluations: '
              'individual comparisons of a value with the oracle'),
          'spaces': {
              k: {**v, 'distinct_states': len(v['distinct_states']),
                  'outcomes': len(v['outcomes']),
                  'cpu_s': round(v['cpu_s'], 2)}
              for k, v in sorted(per_space.items())},
          'samples': total['samples'],
      },
      'assumptions': getattr(module_tasks, 'ASSUMPTIONS', []),
      'wall_s': round(wall, 2),
      'violations': len(violations),
  }
  os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
  with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as f:
    json.dump(evidence, f, indent=1)
  for k, desc in sorted(known_seen.items()):
    print(f'KNOWN-FINDING: property={pid} {k} {desc}')
  if violations:
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    for n, v in enumerate(violations[:3]):
      path = os.path.join(VERIF, 'replays', f'{pid}-{n}.json')
      with open(path, 'w') as f:
        json.dump({'check': pid, **v}, f, indent=1)
      print(f'  {v["space"]}: {v["key"]}: {v["msg"][-1500:]}')
      if v['labels']:
        print(f'  choices: {v["labels"]}')
      if v['key'] == 'worker-died' and errs:
        print(errs[-1500:])
      if n == 0:
        rel = os.path.relpath(path, VERIF)
        print(f'VIOLATION property={pid} replay={rel}')
    return 1
  print(f'{pid}: held on everything explored: {total["executions"]} executions,'
        f' {total["transitions"]} transitions, {total["evaluations"]} '
        f'comparisons, {len(total["outcomes"])} outcomes, '
        f'exhaustive={exhaustive}, {wall:.1f} s')
  return 0


def simple_run_task(spaces, task, stats):
  """Standard run_task: explore one shard of a named space."""
  driver = spaces[task['space']]
  shard = task.get('shard')
  if 'choices' in task:
    explore(driver, stats, None, None, prefix=task['choices'], single=True)
  else:
    known = read_known(sys.argv[2].upper()) if WORKER else {}
    space = task['space'] + ':'
    explore(driver, stats, shard, task.get('deadline'),
            known=[k[len(space):] for k in known if k.startswith(space)])


def shards(space, n, **kw):
  return [dict(space=space, shard=[i, n], **kw) for i in range(n)]


def replay(path):
  with open(path) as f:
    art = json.load(f)
  check = art['check']
  scratch = tempfile.mkdtemp(prefix='mc_replay_')
  try:
    task = dict(art['task'])
    if art['choices']:
      task['choices'] = art['choices']
    w = Worker(check.lower(), task.get('mode', 'x64'),
               sorted(os.sched_getaffinity(0))[0], scratch)
    w.proc.stdout.readline()
    w.send(task)
    msg = json.loads(w.proc.stdout.readline())
    w.close()
  finally:
    shutil.rmtree(scratch, ignore_errors=True)
  viol = msg['stats']['violations']
  for v in viol:
    print(v['key'], v['msg'])
  print('reproduced' if viol else 'not reproduced')
  return 1 if viol else 0


def main():
  if sys.argv[1] == '--worker':
    worker_main()
    return 0
  import argparse
  p = argparse.ArgumentParser()
  p.add_argument('check')
  p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  p.add_argument('-v', '--verbose', action='store_true')
  p.add_argument('--only')
  p.add_argument('--jobs', type=int)
  p.add_argument('--replay')
  args = p.parse_args()
  if args.replay:
    return replay(args.replay)
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  try:
    return run_check(args.check.lower(), args.tier, seed, args.verbose,
                     args.only, args.jobs)
  except BaseException:  # pylint: disable=broad-except
    traceback.print_exc()
    return 2
