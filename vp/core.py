"""Runner shared by all checks.

A check is a module ``vp.checks.<pid lowercased>`` with

  PID, RULE, ASSUMPTIONS
  plan(tier) -> list of (shard name, number of cases, chunk size)
  setup(shard, rec)            (optional) once per worker process
  case(shard, i, rng, rec)     run and judge one case
  finish(shard, rec)           (optional) at the end of a chunk
  REQUIRE(tier) -> {counter: minimum}     (optional)

Every chunk of cases runs in a fresh process which imports HTTPolice from
/repo's working tree.  The randomness of a case is a function of
(VERIF_SEED, property, shard, i) alone, so a replay file only has to name them.

Verdicts: ``rec.fail`` = violated; all cases run and all REQUIREd counters
reached = held on what was observed; anything else = inconclusive (exit 3).
"""

import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
OUT = os.environ.get('VP_OUT', ROOT)
CPU_LIMIT = float(os.environ.get('VP_CPU_LIMIT', '60'))
WALL_LIMIT = {'quick': 850, 'thorough': 880}
MAX_FAILS_PER_CHUNK = 3


class CaseTimeout(BaseException):
    """The code under test used too much CPU time on one case."""


class Recorder:

    def __init__(self, pid, shard):
        self.pid = pid
        self.shard = shard
        self.counters = collections.Counter()
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.fails = []
        self.i = None
        self.seen_mech = set()

    def count(self, name, n=1):
        self.counters[name] += n

    def nontrivial(self, key):
        if not isinstance(key, bytes):
            key = repr(key).encode('utf-8', 'backslashreplace')
        self.distinct.add(hashlib.blake2b(key, digest_size=8).digest())

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append({'shard': self.shard, 'i': self.i,
                                 'case': clip(obj)})

    def fail(self, mech, message, data=None):
        """A violation.  `mech` names the mechanism, for known findings."""
        self.counters['fail:' + mech] += 1
        if mech in self.seen_mech and len(self.fails) >= MAX_FAILS_PER_CHUNK:
            return
        if len(self.fails) >= 4 * MAX_FAILS_PER_CHUNK:
            return
        self.seen_mech.add(mech)
        self.fails.append({'shard': self.shard, 'i': self.i, 'mech': mech,
                           'message': clip(message, 4000),
                           'data': clip(data, 20000)})


def clip(obj, limit=3000):
    if obj is None or isinstance(obj, (int, float)):
        return obj
    s = obj if isinstance(obj, str) else repr(obj)
    s = s.encode('utf-8', 'backslashreplace').decode('utf-8')
    return s if len(s) <= limit else s[:limit] + '...(%d chars)' % len(s)


def rng_for(seed, pid, shard, i):
    return random.Random('%s|%s|%s|%s' % (seed, pid, shard, i))


def _on_vtalrm(_sig, _frame):
    raise CaseTimeout()


def short_tb(exc):
    """Last few frames of a traceback, for messages."""
    frames = traceback.extract_tb(exc.__traceback__)
    tail = ['%s:%s' % (os.path.basename(f.filename), f.name)
            for f in frames[-6:]]
    return ' < '.join(reversed(tail))


VP_DIR = os.path.dirname(os.path.abspath(__file__))
REPORT_READERS = ('htmlrep.py', 'textrep.py')


def repo_mech(exc):
    """Exception type + innermost frame inside the code under test."""
    name = type(exc).__name__
    where = '?'
    for f in traceback.extract_tb(exc.__traceback__):
        if f.filename.startswith(REPO):
            where = '%s:%s' % (os.path.relpath(f.filename, REPO), f.name)
        elif os.path.dirname(f.filename) == VP_DIR and \
                os.path.basename(f.filename) in REPORT_READERS:
            # A report that our (strict) reader cannot make sense of
            where = 'unreadable report (%s)' % os.path.basename(f.filename)
    return 'exc:%s@%s' % (name, where)


def _worker(conn, pid, shard, lo, hi, seed, tier):
    os.environ['VERIF_TIER'] = tier
    tmp = os.environ['VP_TMP']
    sys.pycache_prefix = os.path.join(tmp, 'pyc')
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    mem = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    rec = Recorder(pid, shard)
    out = {'ok': False}
    try:
        mod = importlib.import_module('vp.checks.' + pid.lower())
        # The case CPU limit counts the code under test and the oracle.
        signal.signal(signal.SIGVTALRM, _on_vtalrm)
        if hasattr(mod, 'setup'):
            mod.setup(shard, rec)
        for i in range(lo, hi):
            rec.i = i
            rng = rng_for(seed, pid, shard, i)
            signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
            try:
                rec.evals += 1
                mod.case(shard, i, rng, rec)
            except CaseTimeout as e:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
                rec.fail('cpu', 'no result after %s s of CPU time (%s)' %
                         (CPU_LIMIT, short_tb(e)))
            except Exception as e:      # pylint: disable=broad-except
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
                mech = repo_mech(e)
                if mech.endswith('@?'):
                    raise               # a bug in our machinery
                rec.fail(mech, 'the code under test raised %r (%s)' %
                         (e, short_tb(e)))
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            if len(rec.fails) >= 4 * MAX_FAILS_PER_CHUNK:
                break
        if hasattr(mod, 'finish'):
            mod.finish(shard, rec)
        out['ok'] = True
    except BaseException as e:      # pylint: disable=broad-except
        out['error'] = 'worker %s[%d:%d] i=%s: %s' % (
            shard, lo, hi, rec.i, traceback.format_exc())
    out.update(counters=dict(rec.counters), evals=rec.evals,
               distinct=rec.distinct, samples=rec.samples, fails=rec.fails)
    conn.send(out)
    conn.close()
    os._exit(0)


def load_known(pid):
    """Keys of listed known findings: lines 'known: property=X key=K what'."""
    r = {}
    path = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                words = line.strip().split(None, 3)
                if len(words) >= 3 and words[0] == 'known:' and \
                        words[1] == 'property=' + pid and \
                        words[2].startswith('key='):
                    r[words[2][4:]] = words[3] if len(words) > 3 else ''
    return r


def run(pid, tier, seed, only=None, jobs=None):
    t0 = time.time()
    mod = importlib.import_module('vp.checks.' + pid.lower())
    assert mod.PID == pid
    tmp = tempfile.mkdtemp(prefix='vp-%s-' % pid)
    os.environ['VP_TMP'] = tmp
    os.environ['VERIF_TIER'] = tier
    try:
        return _run(mod, pid, tier, seed, only, jobs or
                    int(os.environ.get('VP_JOBS', '8')), t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _run(mod, pid, tier, seed, only, jobs, t0):
    tasks = []
    if only is not None:
        shard, i = only
        tasks.append((shard, i, i + 1))
    else:
        # interleave the shards so that slow ones overlap
        lists = []
        for shard, n, chunk in mod.plan(tier):
            lists.append([(shard, lo, min(n, lo + chunk))
                          for lo in range(0, n, chunk)])
        while any(lists):
            for l in lists:
                if l:
                    tasks.append(l.pop(0))
    ctx = multiprocessing.get_context('fork')
    running = {}
    results = []
    errors = []
    deadline = t0 + WALL_LIMIT[tier]
    pending = list(tasks)
    timed_out = False
    while pending or running:
        while pending and len(running) < jobs:
            shard, lo, hi = pending.pop(0)
            recv, send = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_worker,
                            args=(send, pid, shard, lo, hi, seed, tier))
            p.start()
            send.close()
            running[recv] = (p, shard, lo, hi)
        ready = multiprocessing.connection.wait(list(running), timeout=1)
        for conn in ready:
            (p, shard, lo, hi) = running.pop(conn)
            try:
                out = conn.recv()
            except (EOFError, OSError):
                p.join()
                errors.append('worker %s[%d:%d] died: %s' %
                              (shard, lo, hi, p.exitcode))
            else:
                results.append(out)
                if not out['ok']:
                    errors.append(out['error'])
            conn.close()
            p.join()
        # a flood of violations needs no further cases
        if sum(len(o['fails']) for o in results) > (
                0 if os.environ.get('VP_FIRST') else 60):
            pending = []
        if time.time() > deadline:
            timed_out = True
            for (p, shard, lo, hi) in running.values():
                p.kill()
                p.join()
                errors.append('worker %s[%d:%d] hit the wall-clock watchdog'
                              % (shard, lo, hi))
            break
    counters = collections.Counter()
    distinct = set()
    fails = []
    samples = []
    evals = 0
    for out in results:
        counters.update(out['counters'])
        distinct |= out['distinct']
        fails += out['fails']
        evals += out['evals']
        for s in out['samples']:
            if len(samples) < 12 and \
                    sum(x['shard'] == s['shard'] for x in samples) < 4:
                samples.append(s)
    known = load_known(pid)
    new = [f for f in fails if f['mech'] not in known]
    for mech in sorted({f['mech'] for f in fails if f['mech'] in known}):
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, mech, known[mech]))
    missing = {}
    if only is None:
        req = getattr(mod, 'REQUIRE', lambda tier: {})(tier)
        missing = {k: (counters[k], v) for k, v in req.items()
                   if counters[k] < v}
    wall = round(time.time() - t0, 1)
    rep_dir = os.path.join(OUT, 'replays')
    if new:
        os.makedirs(rep_dir, exist_ok=True)
    new.sort(key=lambda f: (f['mech'], str(f['shard']), f['i'] or 0))
    shown = {}
    for n, f in enumerate(new):
        if shown.get(f['mech'], 0) >= 2 or len(shown) > 12:
            continue
        shown[f['mech']] = shown.get(f['mech'], 0) + 1
        path = os.path.join(rep_dir, '%s-%d.json' % (pid, n))
        with open(path, 'w') as fh:
            json.dump(dict(f, property=pid, seed=seed, tier=tier), fh,
                      indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('    [%s] %s' % (f['mech'], clip(f['message'], 1500)))
    if only is None:
        write_evidence(mod, pid, tier, seed, evals, distinct, counters,
                       samples, new, wall, errors, missing)
    print('%s %s seed=%s: %d cases, %d distinct non-trivial, %d violations, '
          '%.1f s' % (pid, tier, seed, evals, len(distinct), len(new), wall))
    interesting = {k: v for k, v in sorted(counters.items())}
    print('    observed: ' + clip(json.dumps(interesting), 2500))
    if new:
        return 1
    if errors:
        for e in errors[:5]:
            print('ERROR ' + e)
        return 3
    if missing:
        print('INCONCLUSIVE: monitors not reached: %r' % missing)
        return 3
    if timed_out:
        return 3
    return 0


def write_evidence(mod, pid, tier, seed, evals, distinct, counters, samples,
                   new, wall, errors, missing):
    cov = {
        'evaluations': evals,
        'distinct_nontrivial': len(distinct),
        'rule': mod.RULE,
        'samples': samples,
        'observed': dict(sorted(counters.items())),
    }
    if errors:
        cov['errors'] = [clip(e, 500) for e in errors[:5]]
    if missing:
        cov['monitors_not_reached'] = {k: list(v) for k, v in missing.items()}
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': cov,
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': wall, 'violations': len(new),
    }
    d = os.path.join(OUT, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
