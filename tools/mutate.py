#!/usr/bin/env python3
"""Systematic small changes to /repo's code, to find what the checks overlook.

mutate.py survivors N SEED OUT [FILE...]   N random mutants that compile; those that
                         pass the stable tests are appended to OUT (JSON lines)
mutate.py try OUT RESULT  run the checks that concern the file on each of them
All work is done on scratch copies under /tmp.
"""
import ast
import concurrent.futures
import glob
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading

PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC',
           LANG='C.UTF-8', LC_ALL='C.UTF-8')
ENV.pop('PYTHONPATH', None)


def mutants(path, src):
    """(line, what, new source)"""
    tree = ast.parse(src)
    lines = src.split('\n')
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    raw = src.encode()

    def pos(line, col):
        return starts[line - 1] + col

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    def repl(n, new):
        a, b = span(n)
        return (raw[:a] + new.encode() + raw[b:]).decode()

    class V(ast.NodeVisitor):
        out = []

        def add(self, n, what, new):
            self.out.append((n.lineno, what, repl(n, new)))

        def visit_BoolOp(self, n):
            op = ' and ' if isinstance(n.op, ast.And) else ' or '
            for i in range(len(n.values)):
                rest = [text(v) for k, v in enumerate(n.values) if k != i]
                self.add(n, 'drop operand: ' + text(n.values[i]),
                         '(' + op.join('(%s)' % x for x in rest) + ')')
            self.generic_visit(n)

        def visit_Compare(self, n):
            if len(n.ops) == 1:
                swap = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='],
                        ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='],
                        ast.In: ['not in'], ast.NotIn: ['in'],
                        ast.Is: [], ast.IsNot: []}[type(n.ops[0])]
                for s in swap:
                    self.add(n, 'compare %s: %s' % (s, text(n)), '(%s %s %s)' % (
                        text(n.left), s, text(n.comparators[0])))
            self.generic_visit(n)

        def visit_UnaryOp(self, n):
            if isinstance(n.op, ast.Not):
                self.add(n, 'drop not: ' + text(n), '(%s)' % text(n.operand))
            self.generic_visit(n)

        def visit_Constant(self, n):
            if isinstance(n.value, bool):
                self.add(n, 'flip', str(not n.value))
            elif isinstance(n.value, int) and n.value < 1000:
                self.add(n, 'number+1', str(n.value + 1))

        def elements(self, n):
            if len(n.elts) > 1 and not isinstance(getattr(n, 'ctx', None),
                                                  ast.Store):
                for i in range(len(n.elts)):
                    rest = [text(v) for k, v in enumerate(n.elts) if k != i]
                    o, c = {ast.Tuple: ('(', ',)'), ast.List: '[]',
                            ast.Set: '{}'}[type(n)]
                    self.add(n, 'drop element: ' + text(n.elts[i]),
                             o + ', '.join(rest) + c)
            self.generic_visit(n)
        visit_Tuple = visit_List = visit_Set = elements

        def visit_Call(self, n):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in (
                    'lower', 'strip', 'rstrip', 'lstrip') and not n.args:
                self.add(n, 'drop .%s()' % f.attr, text(f.value))
            if isinstance(f, ast.Name) and f.id in ('any', 'all'):
                self.add(f, f.id, 'all' if f.id == 'any' else 'any')
            self.generic_visit(n)

        def visit_Attribute(self, n):
            pairs = {'is_absent': 'is_present', 'is_present': 'is_okay',
                     'is_okay': 'is_present', 'startswith': 'endswith',
                     'endswith': 'startswith'}
            if n.attr in pairs:
                self.add(n, n.attr, text(n.value) + '.' + pairs[n.attr])
            self.generic_visit(n)

        def stmt(self, n):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                return
            if not isinstance(n, ast.Return) or n.value is None:
                self.add(n, 'drop: ' + text(n).split('\n')[0], 'pass')
            self.generic_visit(n)
        visit_Expr = visit_AugAssign = visit_Continue = visit_Break = stmt

        def visit_If(self, n):
            # elif -> falls through when false: covered by BoolOp; drop else
            if n.orelse and not (len(n.orelse) == 1 and
                                 isinstance(n.orelse[0], ast.If)):
                first, last = n.orelse[0], n.orelse[-1]
                a, b = span(first)[0], span(last)[1]
                self.out.append((first.lineno, 'drop else',
                                 (raw[:a] + b'pass' + raw[b:]).decode()))
            self.generic_visit(n)
    v = V()
    v.out = []
    v.visit(tree)
    good = []
    for line, what, new in v.out:
        try:
            compile(new, path, 'exec')
        except SyntaxError:
            continue
        good.append((line, what, new))
    return good


def copy():
    d = tempfile.mkdtemp(prefix='mut')
    subprocess.run(['cp', '-a', '/repo/.', d], check=True)
    return d


def survivors(n, seed, out, files):
    rng = random.Random(seed)
    everything = []
    for f in files:
        src = open('/repo/' + f).read()
        for line, what, new in mutants(f, src):
            everything.append((f, line, what, new))
    rng.shuffle(everything)
    print(len(everything), 'mutants')
    jobs = int(os.environ.get('JOBS', '4'))
    copies = [copy() for _ in range(jobs)]
    local = threading.local()
    lock = threading.Lock()
    counts = [0, 0]

    def one(m):
        f, line, what, new = m
        if not hasattr(local, 'd'):
            with lock:
                local.d = copies.pop()
                dirs.append(local.d)
        path = os.path.join(local.d, f)
        old = open(path).read()
        open(path, 'w').write(new)
        try:
            p = subprocess.run(
                [PY, '-m', 'pytest', '-x', '-q', '-p', 'no:cacheprovider',
                 '--no-cov', '--timeout=100', 'test'], cwd=local.d,
                env=dict(ENV, PYTHONPATH=local.d), capture_output=True,
                timeout=400)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = 99
        finally:
            open(path, 'w').write(old)
        with lock:
            counts[0] += 1
            if rc == 0:
                counts[1] += 1
                with open(out, 'a') as o:
                    o.write(json.dumps({'file': f, 'line': line, 'what': what,
                                        'new': new}) + '\n')
            if counts[0] % 50 == 0:
                print(counts, flush=True)
    dirs = []
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, everything[:n]))
    for d in dirs + copies:
        shutil.rmtree(d)
    print(counts)


# Where to look first
CHECKS = {
    'request.py': 'C15 C16 C17 C18 C19 C20 C21 C23',
    'response.py': 'C16 C17 C18 C19 C20 C15 C14 C21 C23',
    'message.py': 'C11 C25 C20 C15 C18 C14', 'header.py': 'C14 C25 C20',
    'structure.py': 'C22 C20 C17 C12', 'parse.py': 'C13 C12 C27',
    'framing1.py': 'C07 C06 C08', 'stream.py': 'C07 C06 C26', 'har.py': 'C10 C02',
    'streams.py': 'C09 C08 C06 C27', 'notice.py': 'C26', 'blackboard.py': 'C05 C25',
    'codings.py': 'C11', 'exchange.py': 'C05 C04', 'helpers.py': 'C28',
    'cli.py': 'C02 C03', 'citation.py': 'C29', 'html.py': 'C25 C26 C29',
    'text.py': 'C24 C26', 'common.py': 'C26 C25', 'known': 'C29 C16 C20',
    'syntax': 'C12 C13', 'util': 'C26 C24', 'inputs/__init__.py': 'C03 C09'}


def concerned(f):
    b = os.path.basename(f)
    if b in CHECKS:
        return CHECKS[b].split()
    for k, v in CHECKS.items():
        if '/' + k in f:
            return v.split()
    return []


def attempt(src, result):
    done = set()
    if os.path.exists(result):
        for l in open(result):
            d = json.loads(l)
            done.add((d['file'], d['line'], d['what']))
    d = copy()
    os.makedirs('/tmp/out.mut', exist_ok=True)
    for l in open(src):
        m = json.loads(l)
        key = (m['file'], m['line'], m['what'])
        if key in done:
            continue
        done.add(key)
        path = os.path.join(d, m['file'])
        shutil.copy('/repo/' + m['file'], path)
        open(path, 'w').write(m['new'])
        caught = None
        rcs = {}
        for c in concerned(m['file']):
            try:
                p = subprocess.run(
                    ['/verif/run.sh', c, 'quick'], capture_output=True, text=True,
                    env=dict(ENV, VP_REPO=d, VP_OUT='/tmp/out.mut',
                             VP_FIRST='1'), timeout=900)
                rcs[c] = p.returncode
            except subprocess.TimeoutExpired:
                rcs[c] = 'timeout'
            if rcs[c] == 1:
                caught = c
                break
        shutil.copy('/repo/' + m['file'], path)
        with open(result, 'a') as o:
            o.write(json.dumps({'file': m['file'], 'line': m['line'],
                                'what': m['what'], 'caught': caught,
                                'rcs': rcs}) + '\n')
        print(m['file'], m['line'], m['what'][:80], '->', caught, rcs, flush=True)
    shutil.rmtree(d)


if __name__ == '__main__':
    if sys.argv[1] == 'survivors':
        files = sys.argv[5:] or [
            f[len('/repo/'):] for f in sorted(
                glob.glob('/repo/httpolice/**/*.py', recursive=True))]
        survivors(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], files)
    else:
        attempt(sys.argv[2], sys.argv[3])
