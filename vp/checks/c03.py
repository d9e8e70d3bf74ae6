"""C03: the exit status tells whether a severe enough notice was reported."""

import copy
import os
import subprocess
import sys

from vp import batch, har, wire

PID = 'C03'
RULE = ('Batches of captures and HAR files (well-formed, damaged and framing '
        'garbage) are run through the command line; then again with sets of '
        'numbers silenced so that only chosen notices are left (one number, one '
        'severity, everything but one severity, nothing), with every --fail-on '
        'and both outputs. The severities shown in the report decide what the '
        'status has to be. Some runs are real processes. Non-trivial: at least '
        'one notice is left in the report.')
ASSUMPTIONS = ['severity letters in the report are right (C24)']
RANK = {'D': 0, 'C': 1, 'E': 2}
LEVELS = {'debug': 0, 'comment': 1, 'error': 2}


def plan(tier):
    n = 800 if tier == 'quick' else 16000
    return [('run', n, 50), ('header', n, 50), ('proc', 24 if tier == 'quick' else 400, 3)]


def REQUIRE(tier):
    r = {'process': 30, 'changed by header': 150}
    for lv in ('debug', 'comment', 'error'):
        for top in ('none', 'D', 'C', 'E'):
            r['%s with %s' % (lv, top)] = 100
    for top in ('D', 'C', 'E'):
        r['none with %s' % top] = 100
        r['only one, %s' % top] = 60
        r['only box, %s' % top] = 10 if top != 'C' else 0
    return r


def top_of(notices):
    return max((n[0] for n in notices), key=RANK.get, default='none')


def judge(rec, notices, level, status, spec):
    top = top_of(notices)
    rec.count('%s with %s' % (level, top))
    want = 1 if level != 'none' and top != 'none' and \
        RANK[top] >= LEVELS[level] else 0
    if status != want:
        rec.fail('%s with %s' % (level, top), 'exit status %r, but with %s the '
                 'report has %r' % (status, level, sorted(set(notices))[:20]),
                 spec)


def selections(rng, notices):
    """Sets of numbers to silence, chosen by what they leave."""
    ids = sorted({n[1] for n in notices})
    by = {s: {n[1] for n in notices if n[0] == s} for s in 'DCE'}
    out = [[]]
    for s in 'DCE':
        if by[s]:
            out.append([x for x in ids if x not in by[s]])
            out.append(sorted(by[s]))
            one = rng.choice(sorted(by[s]))
            out.append([x for x in ids if x != one])
            few = rng.sample(ids, rng.randint(1, len(ids)))
            out.append(few)
    out.append(sorted(by['E'] | by['C']))
    out.append(ids)
    rng.shuffle(out)
    return out


def case(shard, i, rng, rec):
    with wire.Tmp() as tmp:
        if shard == 'header':
            header(tmp, rng, rec)
            return
        fmt, paths, what = batch.files(tmp, rng)
        if shard == 'proc':
            process(rng, rec, fmt, paths, what)
            return
        first = batch.run(fmt, 'text', paths)
        if first.err:
            rec.fail('refused', first.err, {'fmt': fmt, 'files': what})
            return
        base = batch.shown('text', first.out)
        judge(rec, base, 'none', first.status, {'fmt': fmt, 'files': what})
        for silence in selections(rng, base)[:8]:
            kind = rng.choice(['text', 'text', 'html'])
            level = rng.choice(['none', 'debug', 'comment', 'comment', 'error',
                                'error'])
            flags = []
            if level != 'none':
                flags += ['--fail-on', level]
            extra = rng.sample(range(1000, 1311), rng.choice([0, 0, 1, 3]))
            for x in silence + [x for x in extra
                                if x not in {n[1] for n in base}]:
                flags += rng.choice([['-s', str(x)], ['--silence', str(x)],
                                     ['-s%d' % x]])
            if level != 'none' and rng.random() < .5:
                flags = flags[2:] + flags[:2]
            spec = {'fmt': fmt, 'files': what, 'kind': kind, 'flags': flags}
            out = batch.run(fmt, kind, paths, flags)
            if out.err:
                rec.fail('refused', out.err, spec)
                return
            left = batch.shown(kind, out.out)
            judge(rec, left, level, out.status, spec)
            if left:
                rec.nontrivial((what, flags, kind))
                rec.sample(spec)
                if len({n[1] for n in left}) == 1 and level != 'none':
                    rec.count('only one, ' + left[0][0])
                    if left[0][1] in (1006, 1007, 1008, 1009, 1010, 1278, 1279):
                        rec.count('only box, ' + left[0][0])


def header(tmp, rng, rec):
    """Notices that are silenced by the messages themselves."""
    data, _ = har.har(rng, rng.choice([1, 1, 2]))
    path = tmp.put('x.har', har.dump(data, rng))
    base = batch.shown('text', batch.run('har', 'text', [path]).out)
    for _ in range(3):
        silence = rng.choice(selections(rng, base))
        if not silence:
            continue
        value = ', '.join(['%d' % x for x in silence] +
                          ['%d resp' % x for x in silence])
        h = {'name': 'HTTPolice-Silence', 'value': value}
        data2 = copy.deepcopy(data)
        for e in data2['log']['entries']:
            e['request']['headers'].append(h)
        b = har.dump(data2, rng)
        path = tmp.put('x.har', b)
        kind = rng.choice(['text', 'html'])
        level = rng.choice(['debug', 'comment', 'error'])
        spec = {'fmt': 'har', 'files': [b], 'kind': kind, 'level': level}
        out = batch.run('har', kind, [path], ['--fail-on', level])
        left = batch.shown(kind, out.out)
        judge(rec, left, level, out.status, spec)
        rec.count('by header')
        if top_of(left) != top_of(base):
            rec.count('changed by header')
            rec.nontrivial((b, level))


def process(rng, rec, fmt, paths, what):
    """The real program, as a user or a build script would run it."""
    levels = ['none', 'debug', 'comment', 'error']
    rng.shuffle(levels)
    for level in levels[:2]:
        kind = rng.choice(['text', 'html'])
        flags = [] if level == 'none' else ['--fail-on=' + level]
        repo = os.environ.get('VP_REPO', '/repo')
        p = subprocess.run(
            [sys.executable, '-B', '-m', 'httpolice.cli', '-i', fmt, '-o', kind] +
            flags + ['--'] + paths, stdout=subprocess.PIPE,
            stderr=subprocess.PIPE, timeout=300,
            env=dict(os.environ, PYTHONPATH=repo))
        spec = {'fmt': fmt, 'files': what, 'kind': kind, 'flags': flags}
        rec.count('process')
        if p.stderr:
            rec.fail('process stderr', repr(p.stderr[-500:]), spec)
            continue
        judge(rec, batch.shown(kind, p.stdout), level, p.returncode, spec)
