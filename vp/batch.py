"""Inputs for whole runs of the command line, and reading its reports."""

from vp import gen, har, hp, htmlrep, textrep, wire


def pair(rng):
    r = rng.random()
    if r < .45:
        inb, outb, _, _ = wire.wf_connection(rng)
        return inb, outb
    if r < .9:
        return wire.hostile_pair(rng)
    return rng.choice([(b'', b''), (b'', b'HTTP/1.1 200 OK\r\n\r\n'),
                       (b'GET / HTTP/1.1\r\n\r\n', b''), (b'x', b'y')])


def files(tmp, rng, n=None):
    """-> (format, paths, description)"""
    fmt = rng.choice(['combined', 'streams', 'har', 'har', 'req-stream',
                      'resp-stream', 'combined'])
    n = n or rng.choice([1, 1, 2, 3])
    paths, what = [], []
    for k in range(n):
        if fmt == 'har':
            d, _ = har.har(rng)
            b = har.dump(d, rng)
            paths.append(tmp.put('%d.har' % k, b))
            what.append(b)
            continue
        inb, outb = pair(rng)
        if fmt == 'combined':
            if wire.COMBINED_OUT in inb:
                inb = b''
            b = b'x\r\n' + wire.COMBINED_IN + inb + wire.COMBINED_OUT + outb
            paths.append(tmp.put('%d%s' % (k, rng.choice(
                ['', '.https', '.noscheme'])), b))
            what.append(b)
            continue
        if fmt != 'resp-stream':
            paths.append(tmp.put('%di' % k, inb))
            what.append(inb)
        if fmt != 'req-stream':
            paths.append(tmp.put('%do' % k, outb))
            what.append(outb)
    return fmt, paths, what


def shown(kind, data):
    """[(severity letter, number, plain title)] of everything in a report."""
    if kind == 'text':
        return [(s, n, textrep.plain(t))
                for s, n, t in textrep.all_notices(textrep.read(data))]
    return [(n['sev'], n['id'], textrep.plain(n['title']))
            for e in htmlrep.read(data)
            for n in [x for m in e['messages'] for x in m['notices']] +
            e['notices']]


def run(fmt, kind, paths, flags=()):
    return hp.run_cli(['-i', fmt, '-o', kind] + list(flags) + ['--'] + paths)
