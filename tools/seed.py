#!/usr/bin/env python3
"""Makes and tries planted bugs.

seed.py make [ID...]    write /verif/seeded/ID from tools/seedlist/*.py and verify
                        it: applies, builds, passes the stable tests, and the
                        demonstration tells it from the unchanged tree
seed.py try [-t] [ID...]  run the check of its property against it
All work is done on scratch copies under /tmp.
"""
import concurrent.futures
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = ROOT + '/seeded'
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC',
           LANG='C.UTF-8', LC_ALL='C.UTF-8')
ENV.pop('PYTHONPATH', None)
STABLE = set(json.load(open('/opt/vp/BASELINE.json')).get('passed', []) or [])


def seeds():
    r = {}
    for f in sorted(glob.glob(ROOT + '/tools/seedlist/*.py')):
        ns = {}
        exec(compile(open(f).read(), f, 'exec'), ns)
        for s in ns['SEEDS']:
            assert s['id'] not in r, s['id']
            r[s['id']] = s
    return r


def copy():
    d = tempfile.mkdtemp(prefix='seed')
    subprocess.run(['cp', '-a', '/repo/.', d], check=True)
    return d


def demo(d, sid):
    env = dict(ENV, PYTHONPATH=d)
    p = subprocess.run(['bash', '%s/%s/demo.sh' % (SEEDED, sid)], cwd=d, env=env,
                       capture_output=True, text=True, timeout=300)
    return p.returncode, (p.stdout + p.stderr)[-600:]


DEMO_SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore -B "$here/demo.py"
'''


def make(s):
    sid = s['id']
    d = copy()
    try:
        for fn, old, new in s['edits']:
            path = d + '/httpolice/' + fn
            t = open(path).read()
            if t.count(old) != 1:
                return sid, 'edit matches %d times in %s: %r' % (
                    t.count(old), fn, old)
            open(path, 'w').write(t.replace(old, new))
        out = '%s/%s' % (SEEDED, sid)
        os.makedirs(out, exist_ok=True)
        diff = subprocess.run(['git', 'diff'], cwd=d, capture_output=True,
                              text=True, check=True).stdout
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.sh', 'w').write(DEMO_SH)
        open(out + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
        json.dump({'property': s['property'], 'needs': s['needs'],
                   'what_it_breaks': s['breaks']},
                  open(out + '/meta.json', 'w'), indent=1)
        rc, txt = demo(d, sid)
        if rc == 0:
            return sid, 'demo passes with the patch: ' + txt
        if rc != 1 or 'AssertionError' not in txt:
            print(sid, 'demo ends with', rc, txt[-300:])
        p = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
                            '--no-cov', '-x', '-W', 'ignore', '--timeout=300'], cwd=d,
                           env=dict(ENV, PYTHONPATH=d), capture_output=True, text=True)
        if p.returncode:
            return sid, 'tests fail: ' + p.stdout[-200:]
        subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=d, check=True)
        rc, txt = demo(d, sid)
        if rc:
            return sid, 'demo fails without the patch: ' + txt
        return sid, 'ok'
    finally:
        shutil.rmtree(d)


def attempt(sid, tier):
    pid = json.load(open('%s/%s/meta.json' % (SEEDED, sid)))['property']
    if not os.path.exists(ROOT + '/vp/checks/%s.py' % pid.lower()):
        return '%-34s %s no check' % (sid, pid), ''
    d = copy()
    try:
        subprocess.run(['git', 'apply', '%s/%s/patch.diff' % (SEEDED, sid)],
                       cwd=d, check=True)
        p = subprocess.run([ROOT + '/run.sh', pid, tier], capture_output=True,
                           text=True, env=dict(ENV, VP_REPO=d, VERIF_SEED='1',
                                               VERIF_TIER=tier,
                                               VP_OUT=d + '/out'))
        v = [l for l in p.stdout.split('\n') if l.startswith('VIOLATION')]
        caught = p.returncode == 1 and any('property=%s ' % pid in l for l in v)
        return '%-34s %s %s (exit %d)' % (
            sid, pid, 'caught' if caught else 'MISSED', p.returncode), \
            '' if caught else (p.stdout + p.stderr)[-500:]
    finally:
        shutil.rmtree(d)


def main():
    args = sys.argv[2:]
    if sys.argv[1] == 'make':
        all_ = seeds()
        todo = [all_[a] for a in args] if args else [
            s for s in all_.values()
            if not os.path.exists('%s/%s/meta.json' % (SEEDED, s['id']))]
        with concurrent.futures.ThreadPoolExecutor(6) as ex:
            for sid, res in ex.map(make, todo):
                print(sid, res)
                if res != 'ok':
                    shutil.rmtree('%s/%s' % (SEEDED, sid), ignore_errors=True)
    else:
        tier = 'quick'
        if args[:1] == ['-t']:
            tier = 'thorough'
            args = args[1:]
        ids = args or sorted(os.listdir(SEEDED))
        for sid in ids:
            if not os.path.exists('%s/%s/meta.json' % (SEEDED, sid)):
                print(sid, 'not made')
                continue
            line, txt = attempt(sid, tier)
            print(line, txt, flush=True)


main()
