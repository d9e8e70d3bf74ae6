"""C09: connections in a directory are recombined and put in order."""

import datetime
import os
import random

from httpolice import inputs
from vp import gen, hp, htmlrep, wire

PID = 'C09'
RULE = ('Captures of many connections are written from a model: complete, '
        'client-only, server-only, empty, non-HTTP, with garbage at the end, '
        'the same addresses reused, addresses equal on both sides, several '
        'directories, dates on requests, final or interim responses, with Age, '
        'missing or malformed. All exchanges read must be those of the model, '
        'each once, paired as in it, in order within the connection, merged '
        'by date (each next exchange is the earliest of the next ones of all '
        'connections), whatever the order of the directory listing; flags '
        '1278 and 1279 exactly on one-sided and unrecognizable connections. '
        'Non-trivial: more than one connection.')
ASSUMPTIONS = ['file names follow the documented -T and -F2 forms']


def plan(tier):
    k = 1 if tier == 'quick' else 25
    return [('tcpflow', 1500 * k, 100), ('tcpick', 1500 * k, 100),
            ('streams', 800 * k, 100), ('onesided', 300 * k, 60),
            ('combined', 200 * k, 60), ('names', 300 * k, 60),
            ('cli', 160 * k, 20)]


def REQUIRE(tier):
    return {'both': 3000, 'client': 600, 'server': 600, 'opaque': 200,
            'same host': 100, 'reused address': 200, 'two directories': 100,
            'interleaved': 500, 'undated inside': 500, 'date on interim': 100,
            'Age': 300, 'malformed date': 50, 'garbage tail': 200,
            'later hint': 100, 'undated connection': 300, 'silent side': 100,
            'listing': 1000, 'bad name': 100, 'duplicate name': 30,
            'exotic first line': 200, 'cli': 100}


EPOCH = datetime.datetime(2015, 1, 1)
METHODS = ['GET', 'GET', 'POST', 'OPTIONS', 'HEAD', 'FOO', 'PROPFIND', '%', 'g']


def stamp(t, rng):
    d = EPOCH + datetime.timedelta(seconds=t)
    r = rng.random()
    if r < .8:
        return d.strftime('%a, %d %b %Y %H:%M:%S GMT').encode()
    if r < .9:
        return d.strftime('%A, %d-%b-%y %H:%M:%S GMT').encode()
    return d.strftime('%a %b ') .encode() + b'%2d' % d.day + \
        d.strftime(' %H:%M:%S %Y').encode()


class Conn:
    """items: [(key, date or None)], where key is what will be read."""

    def __init__(self, cid):
        self.cid = cid
        self.items = []
        self.inb = self.outb = b''
        self.kind = 'both'
        self.hint = None
        self.files = []


def connection(rng, rec, cid, clock, kinds):
    c = Conn(cid)
    c.kind = rng.choice(kinds)
    rec.count(c.kind)
    if c.kind == 'opaque':
        data = [rng.choice([b'\x16\x03\x01\x02\x00\x01', b'hello\r\n', b'',
                            b'GET /\r\n', b'HTTP/2 200 OK\r\n',
                            b'SSH-2.0-OpenSSH\r\n', b'PRI * HTTP/2.0\r\n\r\n',
                            b'HTTP/1.1 2000 x\r\n', b'\n', b'a b c d HTTP/1.1\r\n',
                            b' HTTP/1.1 200 OK\r\n', b'GET  HTTP/1.1\r\n'])
                for _ in 'io']
        c.inb, c.outb = data
        return c
    n = rng.choice([1, 1, 2, 3, 4])
    style = rng.choice(['all', 'all', 'some', 'some', 'none'])
    t = clock()
    c.start = t
    for k in range(n):
        t += rng.choice([1, 5, 50, 400]) + rng.random()
        t = c.last = float(int(t * 16)) // 16
        while t in clock.seen:
            t += 1
        clock.seen.add(t)
        date = None
        tag = 'c%d-%d' % (cid, k)
        rq, rp, mid = [], [], b''
        where = rng.choice(['req', 'resp', 'resp', 'resp', 'both', 'mid', 'age'])
        if style == 'none' or (style == 'some' and rng.random() < .4):
            where = rng.choice(['', '', 'bad'])
        if c.kind == 'client' and where:
            where = rng.choice(['req', where])
        if c.kind == 'server' and where:
            where = rng.choice(['resp', where])
        if where in ('req', 'both'):
            rq.append(('Date', stamp(t, rng)))
            if c.kind != 'server':
                date = t
        if where in ('resp', 'both', 'age'):
            age = rng.choice([0, 1, 60, 3000, 10**6]) if where == 'age' else 0
            shift = rng.choice([0, 0, 30]) if where == 'both' else 0
            rp.append((gen.recase('Date', rng), stamp(t - age + shift, rng)))
            if where == 'age':
                rp.append(('Age', b'%d' % age))
                rec.count('Age')
            if date is None and c.kind != 'client':
                date = t if not shift else t + shift
        if where == 'bad':
            rp.append(('Date', rng.choice([b'tomorrow', b'', b'1488154981'])))
            rec.count('malformed date')
        if where == 'mid':
            mid = (b'HTTP/1.1 10%d Hm\r\nX-Tag: r%s\r\nDate: %s\r\n\r\n' % (
                rng.choice([0, 2, 3]), tag.encode(), stamp(t, rng)))
            if c.kind != 'client':
                date = t
                rec.count('date on interim')
        elif rng.random() < .1:
            mid = b'HTTP/1.1 100 Continue\r\nX-Tag: r%s\r\n\r\n' % tag.encode()
        if date is None and k:
            rec.count('undated inside')
        method = rng.choice(METHODS)
        version = rng.choice(['HTTP/1.1', 'HTTP/1.1', 'HTTP/1.0'])
        rq = [('Host', b'x'), ('X-Tag', b'q' + tag.encode())] + rq
        body = b''
        if method == 'POST':
            rq.append(('Content-Length', b'2'))
            body = b'ab'
        target = rng.choice(['/', '/a', '*', 'http://x/y', '/HTTP/1.1'])
        if k == 0 and (method in '%g' or target != '/'):
            rec.count('exotic first line')
        c.inb += wire.head('%s %s %s' % (method, target, version), rq, rng) + body
        status = rng.choice([200, 404, 503, 204, 999])
        rp = [('X-Tag', b'r' + tag.encode())] + rp
        rp.append(('Content-Length', b'0'))
        c.outb += mid + wire.head('HTTP/1.%d %d %s' % (
            rng.choice([1, 1, 0]), status, rng.choice(['OK', '', 'a b'])),
            rp, rng)
        nresp = 2 if mid else 1
        q, r = ('q' + tag,), ('r' + tag,) * nresp
        if c.kind == 'client':
            r = ()
        if c.kind == 'server':
            q = ()
        c.items.append((q + r, date))
    r = rng.random()
    if r < .1:
        if c.kind != 'server':
            c.inb += b'\x00garbage\r\n\r\nmore'
            c.items.append(((1006, 1007), None))
        else:
            c.outb += b'\x00garbage\r\n\r\nmore'
            c.items.append(((1009, 1010), None))
        rec.count('garbage tail')
    elif r < .14 and c.kind == 'both':
        keep = rng.choice('io')
        if keep == 'i':
            c.outb = b''
            c.items = [((k[0],), None if d is None or b'Date' not in c.inb
                        else 'redo') for k, d in c.items]
            if any(d == 'redo' for _, d in c.items):
                c.items = None
            else:
                c.items.insert(1, ((1009,), None))
        else:
            c.inb = b''
            c.items = None
        if rng.random() < .5:
            c.items = None
            odd = rng.choice([b'garbage\r\n\r\nx', b'\x00\x01', b'a b c\r\n',
                              b'HTTP/1.1 99 x\r\n\r\n' if keep == 'i' else
                              b'GET / HTTP/2\r\n\r\n'])
            if keep == 'i':
                c.outb = odd
            else:
                c.inb = odd
        rec.count('silent side')
        if c.items is None:
            c.items = 'loose'
    return c


class Clock:

    def __init__(self, rng):
        self.rng = rng
        self.seen = set()
        self.width = rng.choice([10, 300, 5000])

    def __call__(self):
        return float(self.rng.randint(0, self.width))


def host(rng, flow):
    if flow:
        return rng.choice(['010.025.103.004', '127.000.000.001', '::1',
                           '2001:db8::1', '010.220.002.014'])
    return rng.choice(['10.25.103.4', '127.0.0.1', '23.22.14.18', 'example.com'])


def put_flow(rng, rec, root, conns):
    """Write in tcpflow's form; -> directories"""
    dirs, used = [], {}
    for k in range(rng.choice([1, 1, 1, 2])):
        d = os.path.join(root, rng.choice(['d%d', 'd %d', '%d-\u0436', '1-2-3-%d']) % k)
        os.mkdir(d)
        dirs.append(d)
        used[d] = set()
        if rng.random() < .3:
            open(os.path.join(d, 'report.xml'), 'w').close()
        if rng.random() < .2:
            open(os.path.join(d, 'alerts.txt'), 'w').close()
    if len(dirs) > 1:
        rec.count('two directories')
    for c in conns:
        d = rng.choice(dirs)
        while True:
            a, b = host(rng, True), host(rng, True)
            p, q = rng.choice([53306, 51002, 30002, 80]), rng.choice([80, 8123])
            if a == b and p == q:
                continue
            src, dst = '%s-%05d' % (a, p), '%s-%05d' % (b, q)
            if (src, dst) not in used[d] and (dst, src) not in used[d]:
                break
        if any((src, dst) in u or (dst, src) in u for u in used.values()):
            rec.count('reused address')
        rec.count('same host', a == b)
        used[d].add((src, dst))
        ts = hints(rng, rec, c)
        for kind, s, t, data, h in (('client', src, dst, c.inb, ts[0]),
                                    ('server', dst, src, c.outb, ts[1])):
            if c.kind in ('both', 'opaque', kind):
                path = os.path.join(d, '%d-%s-%s-%d' % (
                    1420070400 + h, s, t, rng.choice([0, 0, 0, 3])))
                c.files.append((path, data))
    return dirs


def hints(rng, rec, c):
    """When the two sides started, in seconds."""
    if c.kind == 'opaque' or c.items == 'loose':
        c.hint = rng.randint(0, 5000)
        return [c.hint, c.hint + 1]
    dates = [d for _, d in c.items if d is not None]
    first = int(min(dates)) if dates else int(c.start)
    early = first - rng.choice([0, 0, 1, 3, 100])
    late = early + rng.choice([0, 0, 1, 7])
    if dates and rng.random() < .05:
        early = late = first + 100
        rec.count('later hint')
        c.loose = True
    c.hint = {'client': early, 'server': early}.get(c.kind, min(early, late))
    ts = [early, late]
    if c.kind == 'both' and rng.random() < .3:
        ts.reverse()
    if c.kind in ('client', 'server'):
        ts = [early, early]
    return ts


def put_pick(rng, rec, root, conns):
    dirs, n = [], {}
    for k in range(rng.choice([1, 1, 1, 2])):
        d = os.path.join(root, rng.choice(['d%d', 'x_y_%d', 'p.%d.dat']) % k)
        os.mkdir(d)
        dirs.append(d)
        n[d] = rng.choice([0, 0, 7, 97, 999997])
    if len(dirs) > 1:
        rec.count('two directories')
    seen = set()
    for c in sorted(conns, key=lambda c: rng.random()):
        d = rng.choice(dirs)
        n[d] += rng.choice([1, 1, 1, 4])
        a, b = host(rng, False), host(rng, False)
        rec.count('same host', a == b)
        rec.count('reused address', (a, b) in seen)
        seen.add((a, b))
        for kind, end, data in (('client', 'clnt', c.inb),
                                ('server', 'serv', c.outb)):
            if c.kind in ('both', 'opaque', kind):
                c.files.append((os.path.join(d, 'tcpick_%06d_%s_%s_%s.%s.dat' % (
                    n[d], a, b, rng.choice(['http', '8123', 'http-alt']) if
                    False else 'http', end)), data))
        c.rank = (dirs.index(d), n[d])
    return dirs


def write(rng, conns):
    files = [f for c in conns for f in c.files]
    rng.shuffle(files)
    for path, data in files:
        with open(path, 'wb') as f:
            f.write(data)


class Listing:
    """Directories are listed in an order that we choose."""

    def __init__(self, seed):
        self.rng = random.Random(seed)

    def __enter__(self):
        self.real = os.listdir

        def listdir(*args, **kw):
            names = sorted(self.real(*args, **kw))
            self.rng.shuffle(names)
            return names
        os.listdir = listdir

    def __exit__(self, *_):
        os.listdir = self.real


def whose(sec, conns):
    text = '\n'.join(' '.join(n['paras']) for n in sec['notices'])
    found = {c.cid for c in conns for p, _ in c.files
             if htmlrep.squeeze(p) in text}
    return found.pop() if len(found) == 1 else None


def seen(exchs, conns):
    """-> [(cid, key)]"""
    r = []
    for e in exchs:
        tags = []
        for m in ([e.request] if e.request else []) + list(e.responses):
            tags += [bytes(x.value).decode('latin-1') for x in m.header_entries
                     if x.name == 'X-Tag']
        if e.request is None and not e.responses:
            ids = tuple(hp.ids(e))
            sec, = htmlrep.read(hp.report('html', [e]))
            r.append((whose(sec, conns), ids))
        else:
            r.append((int(tags[0][2:].split('-')[0]) if tags else None,
                      tuple(tags)))
    return r


def model(c, flow):
    """What must be read from this connection: [(key, date)]"""
    r = []
    if flow and c.kind in ('client', 'server'):
        r.append(((1278,), None))
    if c.kind == 'opaque':
        return r + [((1279,), None)]
    for key, date in c.items:
        if isinstance(key[0], int):
            r += [((n,), None) for n in key]
        else:
            r.append((key, date))
    return r


def judge(rec, conns, got, flow, data, merged=True):
    by = {c.cid: [] for c in conns}
    for cid, key in got:
        if cid is None:
            rec.fail('stray', 'cannot tell whose %r is' % (key,), data)
            return
        by[cid].append(key)
    for c in conns:
        if c.items == 'loose':
            tags = [t for k in by[c.cid] for t in k if not isinstance(t, int)]
            if sorted(set(tags)) != sorted(set(x.decode() for x in
                                               tags_in(c.inb + c.outb))):
                rec.fail('exchanges', 'silent side: read %r' % by[c.cid], data)
            continue
        want = [k for k, _ in model(c, flow)]
        if by[c.cid] != want:
            rec.fail('exchanges', 'connection %d (%s): read %r, captured %r' % (
                c.cid, c.kind, by[c.cid], want), data)
            return
    if not merged:
        return
    # Now merge by date.
    heads, now = {}, {}
    ties = False
    for c in conns:
        if c.items == 'loose' or getattr(c, 'loose', False):
            continue
        q, t = [], None if c.hint is None else float(c.hint)
        for key, date in model(c, flow):
            t = date if date is not None else t
            q.append((key, t))
        heads[c.cid] = q
    order = []
    for cid, key in got:
        if cid not in heads:
            continue
        t = heads[cid][0][1]
        rest = [(q[0][1], k) for k, q in heads.items() if q]
        if t is not None:
            early = [k for u, k in rest if u is None or u < t]
            if early:
                rec.fail('order', '%r of connection %d (time %s) comes before '
                         'that of %r; all: %r' % (key, cid, t, early, got), data)
                return
        if sum(u == t for u, _ in rest) > 1:
            ties = True
        heads[cid].pop(0)
        order.append(cid)
    if len(set(order)) < len([1 for i, x in enumerate(order)
                              if i == 0 or order[i - 1] != x]):
        rec.count('interleaved')
    ranks = [(c.rank, c.cid) for c in conns if hasattr(c, 'rank') and
             c.items != 'loose' and model(c, flow)[0][1] is None]
    rec.count('undated connection', len(ranks))
    starts = [cid for k, cid in enumerate(order) if cid not in order[:k]]
    starts = [x for x in starts if x in {cid for _, cid in ranks}]
    if starts != [cid for _, cid in sorted(ranks)]:
        rec.fail('undated order', 'undated connections come as %r, captured '
                 'as %r' % (starts, sorted(ranks)), data)
    return ties


def tags_in(b):
    return [x.split(b'\r')[0].strip() for x in b.split(b'X-Tag:')[1:]]


def describe(conns):
    return {'files': [[p.split(os.sep)[-2:], d] for c in conns
                      for p, d in c.files]}


def connections(rng, rec, kinds):
    clock = Clock(rng)
    return [connection(rng, rec, cid, clock, kinds)
            for cid in range(rng.choice([1, 2, 2, 3, 5, 8]))]


KINDS = ['both'] * 8 + ['client', 'server', 'opaque']


def capture(rng, rec, root, flow, kinds=KINDS):
    conns = connections(rng, rec, kinds)
    dirs = (put_flow if flow else put_pick)(rng, rec, root, conns)
    write(rng, conns)
    return conns, dirs


def case(shard, i, rng, rec):
    with wire.Tmp() as tmp:
        globals()[shard](i, rng, rec, tmp.dir)


def directory(i, rng, rec, root, flow):
    conns, dirs = capture(rng, rec, root, flow)
    data = describe(conns)
    read = inputs.formats['tcpflow' if flow else 'tcpick']
    with Listing(1):
        got = seen(read(dirs), conns)
    ties = judge(rec, conns, got, True, data)
    with Listing(i + 2):
        again = seen(read(dirs), conns)
    rec.count('listing')
    if ties is False and got != again:
        rec.fail('listing', 'another listing order gives %r instead of %r' % (
            again, got), data)
    elif sorted(got, key=str) != sorted(again, key=str):
        rec.fail('listing', 'another listing order gives %r instead of %r' % (
            again, got), data)
    note(rec, conns, data)


def note(rec, conns, data):
    if len(conns) > 1:
        rec.nontrivial(repr(data))
        rec.sample(data)


def tcpflow(i, rng, rec, root):
    directory(i, rng, rec, root, True)


def tcpick(i, rng, rec, root):
    directory(i, rng, rec, root, False)


def plain(rng, rec, root, which):
    conns = connections(rng, rec, [which])
    rng.shuffle(conns)
    paths = []
    for k, c in enumerate(conns):
        c.rank = k
        c.files = [(os.path.join(root, ('%d' % c.cid if which == 'both' else
                                        'f \u0436%d') .replace('%d', str(c.cid)) + x +
                                 rng.choice(['', '.dat', '-1'])), d)
                   for x, d in (('i', c.inb), ('o', c.outb))
                   if which == 'both' or (which == 'client') == (x == 'i')]
        paths += [p for p, _ in c.files]
    write(rng, conns)
    return conns, paths


def streams(i, rng, rec, root):
    conns, paths = plain(rng, rec, root, 'both')
    got = seen(inputs.formats['streams'](paths), conns)
    data = describe(conns)
    judge(rec, conns, got, False, data)
    note(rec, conns, data)
    for e in inputs.formats['streams'](paths):
        if e.request is not None and e.request.remark:
            whose = [c for c in conns if c.files[0][0] in e.request.remark]
            if len(whose) != 1:
                rec.fail('remark', repr(e.request.remark), data)


def onesided(i, rng, rec, root):
    which, fmt = rng.choice([('client', 'req-stream'), ('server', 'resp-stream')])
    conns, paths = plain(rng, rec, root, which)
    got = seen(inputs.formats[fmt](paths), conns)
    data = describe(conns)
    judge(rec, conns, got, False, data)
    note(rec, conns, data)


def combined(i, rng, rec, root):
    conns = connections(rng, rec, ['both'])
    rng.shuffle(conns)
    for c in conns:
        c.scheme, end = rng.choice([('http', ''), ('https', '.https'),
                                    (None, '.noscheme'), ('http', '.http'),
                                    ('http', 'https')])
        c.files = [(os.path.join(root, str(c.cid) + end),
                    rng.choice([b'', b'# x\r\n', '\u0436\n'.encode()]) +
                    wire.COMBINED_IN + c.inb + wire.COMBINED_OUT + c.outb)]
    write(rng, conns)
    exchs = list(inputs.formats['combined']([c.files[0][0] for c in conns]))
    got, data = seen(exchs, conns), describe(conns)
    judge(rec, conns, got, False, data, merged=False)
    cids = [cid for cid, _ in got]
    want = [c.cid for c in conns for _ in range(cids.count(c.cid))]
    if cids != want:
        rec.fail('combined order', '%r for files %r' % (
            cids, [c.cid for c in conns]), data)
    for (cid, _), e in zip(got, exchs):
        c = [c for c in conns if c.cid == cid][0]
        if e.request is not None and (e.request.scheme is None) != (
                c.scheme is None) or e.request is not None and \
                c.scheme is not None and str(e.request.scheme) != c.scheme:
            rec.fail('scheme', '%r for %s' % (e.request.scheme, c.files[0][0]),
                     data)
    note(rec, conns, data)


def names(i, rng, rec, root):
    """Directories with anything wrong in them are refused as a whole."""
    flow = rng.random() < .5
    conns, dirs = capture(rng, rec, root, flow, ['both'])
    d = rng.choice(dirs)
    have = os.listdir(d)
    some = rng.choice(have) if have else None
    some = None if some in ('report.xml', 'alerts.txt') else some
    what = rng.choice(['bad', 'bad', 'dup'])
    if what == 'dup' and flow and some:
        t, s, p, q, r, c = some.split('-')
        name = '%d-%s-%s-%s-%s-%d' % (int(t) + rng.choice([0, 60, 5000]),
                                      s, p, q, r, int(c) + 1)
        rec.count('duplicate name')
    else:
        name = rng.choice(
            ['foo', '010.025.103.004.53306-010.220.002.014.00080',
             '.x', 'report.xml~', 'tcpick_172.16.0.100_23.22.14.18_http.clnt.dat']
            + (['tcpick_000001_a_b_http.clnt.dat', '1-2-3', 'x1-a-1-b-2-0',
                'T1-a-1-b-2-0'] if flow else
               ['report.xml', '1420070400-::1-00080-::2-00080-0',
                'tcpick_x_a_b_http.clnt.dat', 'tcpick_000001_a_b_http.clnt.dat~',
                'tcpick_000001_a_b_http.both.dat', 'xtcpick_1_a_b_c.serv.dat']))
        rec.count('bad name')
    with open(os.path.join(d, name), 'w'):
        pass
    data = {'names': have + [name], 'flow': flow}
    try:
        got = list(inputs.formats['tcpflow' if flow else 'tcpick'](dirs))
    except inputs.InputError as e:
        if name not in str(e):
            rec.fail('bad name', 'error %r does not name %s' % (str(e), name),
                     data)
    else:
        rec.fail('bad name', '%s was accepted: %d exchanges' % (name, len(got)),
                 data)
    rec.nontrivial(repr(data))


def cli(i, rng, rec, root):
    """The same through the command line and the HTML report."""
    flow = rng.random() < .5
    conns, dirs = capture(rng, rec, root, flow)
    data = describe(conns)
    with Listing(i):
        r = hp.run_cli(['-i', 'tcpflow' if flow else 'tcpick', '-o', 'html',
                        '--'] + dirs)
    rec.count('cli')
    got = []
    for sec in htmlrep.read(r.out):
        tags = tuple(t.split(': ', 1)[1].strip() for m in sec['messages']
                     for _, t in m['entries'] if t.lower().startswith('x-tag:'))
        if tags:
            got.append((int(tags[0][2:].split('-')[0]), tags))
        for n in sec['notices']:
            got.append((whose(sec, conns), (n['id'],)))
    judge(rec, conns, got, True, data)
    rec.nontrivial(repr(data))
