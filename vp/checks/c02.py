"""C02: any input file yields a report or a clean diagnosis."""

import os
import re
import subprocess
import sys

from lxml import etree

from vp import gen, har, hp, wire

PID = 'C02'
RULE = ('Files for all seven input formats: well-formed and damaged streams, '
        'random octets, HAR files with odd types, missing parts and broken '
        'JSON, capture directories with odd names, missing and unreadable '
        'paths; run through the command-line entry point with both outputs '
        '(and a share as a real process). Oracle: the run ends with status 0, '
        'no diagnosis and a complete report, or with status 1 and a one-line '
        'diagnosis, and the diagnosis appears only where the input calls for '
        'it. Non-trivial: the report is non-empty or a diagnosis was given.')
ASSUMPTIONS = ['file names and paths contain no line breaks',
               'CPU limit of 60 s per case stands for "terminates"']


def plan(tier):
    n = 5000 if tier == 'quick' else 80000
    return [('streams', n, 100), ('combined', n // 4, 100),
            ('dirs', n // 4, 50), ('har', n // 2, 100),
            ('paths', n // 25, 20), ('proc', 40 if tier == 'quick' else 400, 4),
            ('big', 40 if tier == 'quick' else 200, 4)]


def REQUIRE(tier):
    return {'status 0': 3000, 'status 1': 300, 'har ok': 300, 'har bad': 300,
            'text': 1000, 'html': 1000, 'process': 30, 'combined bad': 20,
            'dir ok': 100, 'dir bad': 100}


ONE_LINE = re.compile(r'httpolice: [^\n]+\n\Z')
NAMES = ['a', 'a b', '-x', '\u044f', '\U0001f600', 'a%20b', '&<>"\'', '.x',
         'x.https', 'x.noscheme', '{}', '%s', '\udcff\udc80', 'a\tb', '\x1b[31m',
         'x' * 200]


def expect(rec, out, may_fail, kind, spec):
    """Judge a finished run.  may_fail: True, False or None (either)."""
    rec.count('status %r' % (out.status,))
    if out.status == 0:
        if may_fail is True:
            rec.fail('accepted', 'input that cannot be understood was '
                     'accepted silently', spec)
        if out.err:
            rec.fail('stderr', 'status 0, but stderr has %r' % out.err, spec)
        complete(rec, out.out, kind, spec)
        if out.out:
            rec.nontrivial(out.out)
    elif out.status == 1:
        rec.nontrivial(out.err)
        if not ONE_LINE.match(out.err):
            rec.fail('diagnosis', 'status 1, but stderr has %r' % out.err,
                     spec)
        if may_fail is False:
            rec.fail('refused', 'input was refused: %r' % out.err, spec)
    else:
        rec.fail('status', 'exit status %r, stderr %r' %
                 (out.status, out.err), spec)


def complete(rec, data, kind, spec):
    rec.count(kind)
    try:
        text = data.decode('utf-8')
    except UnicodeError:
        rec.fail('utf-8', 'report is not UTF-8', spec)
        return
    if kind == 'html':
        if not text.rstrip().endswith('</html>'):
            rec.fail('incomplete', 'HTML report ends with %r' % text[-100:],
                     spec)
        tree = etree.HTML(text)
        if tree is None or tree.find('body') is None:
            rec.fail('incomplete', 'HTML report has no body', spec)
    elif text and not text.endswith('\n'):
        rec.fail('incomplete', 'text report ends with %r' % text[-100:], spec)


def out_kind(rng):
    return rng.choice(['text', 'html'])


def name(rng):
    return rng.choice(NAMES)


def bytes_for(rng):
    r = rng.random()
    if r < .5:
        return wire.hostile_pair(rng)
    if r < .7:
        inb, outb, _, _ = wire.wf_connection(rng)
        return inb, outb
    if r < .8:
        inb, outb, _, _ = wire.wf_connection(rng)
        return gen.mutate(inb, rng), gen.mutate(outb, rng)
    return (bytes(rng.choice(gen.JUNK) for _ in range(rng.randint(0, 200))),
            wire.from_snippets(rng))


def case(shard, i, rng, rec):
    with wire.Tmp() as tmp:
        globals()['case_' + shard](tmp, i, rng, rec)


def run(rec, rng, fmt, paths, may_fail, spec, flags=()):
    kind = out_kind(rng)
    argv = ['-i', fmt, '-o', kind] + list(flags) + ['--'] + paths
    spec = dict(spec, argv=argv)
    rec.sample(spec)
    expect(rec, hp.run_cli(argv), may_fail, kind, spec)


def case_streams(tmp, i, rng, rec):
    pairs = [bytes_for(rng) for _ in range(rng.choice([1, 1, 1, 2]))]
    n = name(rng)
    flat = [tmp.put('%d%s%s' % (k, s, n), d) for k, p in enumerate(pairs)
            for s, d in zip('io', p)]
    fmt = rng.choice(['streams', 'streams', 'streams', 'req-stream',
                      'resp-stream'])
    may_fail = False
    if fmt == 'req-stream':
        flat = flat[0::2]
    elif fmt == 'resp-stream':
        flat = flat[1::2]
    elif rng.random() < .03:
        flat.pop()
        may_fail = True
    run(rec, rng, fmt, flat, may_fail, {'data': pairs})


def case_combined(tmp, i, rng, rec):
    inb, outb = bytes_for(rng)
    pre = rng.choice([b'', b'hello\r\n', 'caf\xe9\n'.encode('utf-8'),
                      b'\xff\xfe', b'x' * 100])
    data = pre + wire.COMBINED_IN + inb + wire.COMBINED_OUT + outb
    r = rng.random()
    if r < .1:
        data = gen.mutate(data, rng)
    elif r < .15:
        data = data[:rng.randint(0, len(data))]
    elif r < .18:
        data = pre + wire.COMBINED_OUT + outb + wire.COMBINED_IN + inb
    head, sep, rest = data.partition(wire.COMBINED_IN)
    bad = not sep or wire.COMBINED_OUT not in rest
    try:
        head.decode('utf-8')
    except UnicodeError:
        bad = True
    if bad:
        rec.count('combined bad')
    path = tmp.put(name(rng), data)
    run(rec, rng, 'combined', [path], bad, {'data': data})


def case_dirs(tmp, i, rng, rec):
    fmt = rng.choice(['tcpick', 'tcpflow'])
    spec = {}
    seen = set()
    bad = False
    odd = rng.random() < .4
    for k in range(rng.choice([0, 1, 2, 2, 3])):
        inb, outb = bytes_for(rng)
        src, dst = '1.2.3.4-%d' % (1000 + k), '5.6.7.8-80'
        sides = [(src, dst, 'clnt', inb), (dst, src, 'serv', outb)]
        if rng.random() < .3:
            sides.pop(rng.randrange(2))
        for a, b, side, data in sides:
            late = False
            if fmt == 'tcpick':
                n = 'tcpick_%06d_%s_%s_%s.%s.dat' % (k, src, dst, 'http', side)
            else:
                ts = rng.choice([1400000000, 1400000001, 0, 5])
                if odd and rng.random() < .2:
                    ts = rng.choice([10 ** 20, 10 ** 11, 10 ** 400 // 10 ** 350,
                                     253402300800, 2 ** 63, 2 ** 31])
                n = '%010d-%s-%s-0' % (ts, a, b)
                late = ts > 253402300799
            if odd and rng.random() < .15:
                n = rng.choice([gen.mutate(n.encode(), rng)
                                .decode('iso-8859-1').replace('/', '')
                                .replace('\0', '').replace('\n', '')
                                .replace('\r', '') or 'x', name(rng),
                                'report.xml', 'alerts.txt', 'notes.txt',
                                'report.xml.1', 'README', 'core', '.hidden',
                                'a.dat', '1-2', 'report.json'])
                if n in ('.', '..') or len(os.fsencode(n)) > 250 or n in seen:
                    continue
                bad = bad or (True if n[:1].isalpha() and
                              not n.startswith('tcpick_') and
                              n not in ('report.xml', 'alerts.txt') else None)
            elif late:
                bad = True
            seen.add(n)
            spec[n] = data
    for n, data in spec.items():
        tmp.put(n, data)
    if odd and rng.random() < .1:
        os.mkdir(os.path.join(tmp.dir, 'sub'))
        bad = True
    rec.count('dir bad' if bad is not False else 'dir ok')
    run(rec, rng, fmt, [tmp.dir], bad, {'files': spec})


def case_har(tmp, i, rng, rec):
    if rng.random() < .3:
        data, described = har.har(rng)
        data = har.dump(data, rng)
        may_fail = False
        rec.count('har ok')
    else:
        data = har.hostile(rng)
        may_fail = None
        rec.count('har bad')
    path = tmp.put(name(rng), data)
    run(rec, rng, 'har', [path], may_fail, {'data': data})


def case_paths(tmp, i, rng, rec):
    """Paths that cannot be read."""
    fmt = rng.choice(sorted(hp.inputs.formats))
    good = tmp.put('x', b'')
    what = rng.choice(['missing', 'wrong kind', 'missing second', 'loop',
                       'bad name'])
    is_dir = fmt in ('tcpick', 'tcpflow')
    if what in ('missing', 'missing second'):
        path = os.path.join(tmp.dir, 'nosuch')
    elif what == 'wrong kind':
        path = good if is_dir else tmp.dir
    elif what == 'loop':
        path = os.path.join(tmp.dir, 'loop')
        os.symlink(path, path)
    else:
        path = os.path.join(tmp.dir, 'n' * 300)
    paths = [path]
    if fmt == 'streams':
        paths = [good, path] if what == 'missing second' else [path, good]
    rec.count('path ' + what)
    run(rec, rng, fmt, paths, True, {'what': what})


def case_proc(tmp, i, rng, rec):
    """The same as a real process, with an unfriendly locale."""
    fmt = rng.choice(['streams', 'har', 'combined', 'req-stream'])
    n = rng.choice(['a', '\u044f', 'x y'])
    if fmt == 'har':
        paths = [tmp.put(n, har.hostile(rng))]
        may_fail = None
    elif fmt == 'combined':
        inb, outb = bytes_for(rng)
        ok = rng.random() < .7 and wire.COMBINED_OUT not in inb
        paths = [tmp.put(n, (wire.COMBINED_IN if ok else b'') + inb +
                         wire.COMBINED_OUT + outb)]
        may_fail = not ok
    else:
        paths = [tmp.put(s + n, d) for s, d in zip('io', bytes_for(rng))]
        may_fail = False
        if fmt == 'req-stream':
            paths.pop()
        if rng.random() < .2:
            paths[-1] += 'nosuch'
            may_fail = True
    kind = out_kind(rng)
    env = dict(os.environ, PYTHONPATH=os.environ.get('VP_REPO', '/repo'),
               LC_ALL=rng.choice(['C', 'C.UTF-8', 'POSIX']),
               PYTHONPYCACHEPREFIX=os.path.join(os.environ['VP_TMP'], 'pyc'))
    argv = [sys.executable, '-c', 'from httpolice.cli import main; main()',
            '-i', fmt, '-o', kind, '--'] + paths
    p = subprocess.run(argv, env=env, cwd=tmp.dir, timeout=300,
                       stdin=subprocess.DEVNULL, capture_output=True,
                       check=False)
    rec.count('process')
    err = p.stderr.decode('utf-8', 'replace')
    out = type('Out', (), {'status': p.returncode, 'out': p.stdout,
                           'err': err})
    expect(rec, out, may_fail, kind, {'argv': argv})


BIG = [
    lambda n: (b'GET / HTTP/1.1\r\n\r\n' * (n // 8), b''),
    lambda n: (b'GET / HTTP/1.1\r\n' + b'Foo: bar\r\n' * n + b'\r\n', b''),
    lambda n: (b'GET / HTTP/1.1\r\n' + b'Accept: a/b\r\n' * (n // 20) + b'\r\n',
               b''),
    lambda n: (b'GET / HTTP/1.1\r\nFoo: a\r\n' + b' b\r\n' * n + b'\r\n', b''),
    lambda n: (b'POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n' +
               b'1\r\nx\r\n' * (n * 20) + b'0\r\n\r\n', b''),
    lambda n: (b'POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n' +
               b'Foo: bar\r\n' * n + b'\r\n', b''),
    lambda n: (b'GET / HTTP/1.1\r\n\r\n', b'HTTP/1.1 100 x\r\n\r\n' * (n // 8)),
    lambda n: (b'GET / HTTP/1.1\r\nTransfer-Encoding: ' + b'gzip,' * 2000 +
               b'chunked\r\n\r\n0\r\n\r\n', b''),
    lambda n: (b'\n' * n * 10, b'\r' * n * 10),
    lambda n: (b'\x00' * n * 100, b'\xff' * n * 100),
]


def case_big(tmp, i, rng, rec):
    f = BIG[i % len(BIG)]
    inb, outb = f(rng.choice([1000, 5000, 10000]))
    paths = [tmp.put('i', inb), tmp.put('o', outb)]
    rec.count('big')
    run(rec, rng, 'streams', paths, False, {'sizes': (len(inb), len(outb)),
                                            'shape': i % len(BIG)})
