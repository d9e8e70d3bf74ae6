"""C08: responses are attributed to the requests they answer."""

from vp import gen, hp, htmlrep, wire

PID = 'C08'
RULE = ('Histories of a connection are played from a model in which every '
        'message carries a serial number: pipelined requests of all methods '
        '(and look-alikes such as "head"), interim responses, final responses '
        'with framing headers that the request makes meaningless (HEAD, '
        'CONNECT, 204, 304), tunnels and protocol switches in the middle with '
        'HTTP-like data after them, missing, surplus and unbounded responses. '
        'The exchanges read must pair the numbers as the model did, each '
        'number exactly once, in the objects and in the HTML report. '
        'Non-trivial: more than one response or a special ending.')
ASSUMPTIONS = ['the model follows RFC 7230 Section 3.3 and RFC 7231 4.3.6']


def plan(tier):
    k = 1 if tier == 'quick' else 20
    return [('pair', 5000 * k, 200), ('combined', 800 * k, 200),
            ('resp', 800 * k, 200), ('req', 400 * k, 200)]


def REQUIRE(tier):
    return {'interim': 2000, 'HEAD': 500, 'HEAD with framing headers': 200,
            'head is not HEAD': 100, 'CONNECT refused': 200, 'tunnel': 100,
            'tunnel with data': 50, 'switch': 100, 'switch with data': 50,
            'interim before switch': 20, 'surplus': 200, 'missing': 300,
            'only interim': 50, 'unbounded': 100, 'unbounded swallows': 50,
            '304 with length': 100, 'interim with length': 100,
            'no body due to status, many': 100, 'html': 500}


BODY = [b'', b'hello', b'HTTP/1.1 200 OK\r\nContent-Length: 0\r\nX-Tag: r99\r\n\r\n',
        b'GET / HTTP/1.1\r\nX-Tag: q99\r\n\r\n', b'\r\n', b'0\r\n\r\n', b'x' * 300]


def tagged(rng, tag, extra):
    hs = [('X-Tag', tag.encode())] + extra
    if rng.random() < .3:
        hs += wire.some_headers(rng, ['Foo', 'Server', 'Date'], 1)
    rng.shuffle(hs)
    return hs


def framed(rng, tag, line, body, headers_only=False):
    """A self-delimited message; with `headers_only` its body is not sent."""
    how = rng.choice(['length', 'length', 'chunked'])
    if headers_only and rng.random() < .3:
        how = rng.choice(['none', 'gzip'])
    if how == 'length':
        extra, payload = [('Content-Length', b'%d' % len(body))], body
    elif how == 'chunked':
        extra = [(gen.recase('Transfer-Encoding', rng),
                  rng.choice([b'chunked', b'Chunked']))]
        payload = wire.chunked(body, [], rng)
    elif how == 'gzip':
        extra, payload = [('Transfer-Encoding', b'gzip')], b''
    else:
        extra, payload = [], b''
    if headers_only:
        payload = b''
    return wire.head(line, tagged(rng, tag, extra), rng) + payload, how


class History:

    def __init__(self, rng, rec):
        self.rng, self.rec = rng, rec
        self.inb, self.outb = b'', b''
        self.pairs = []         # (request tag or None, [(response tag, body)])
        self.boxes = []
        self.serial = 0
        self.bodies = {}

    def request(self):
        rng = self.rng
        n = len(self.pairs)
        method = rng.choice(['GET', 'GET', 'HEAD', 'HEAD', 'POST', 'CONNECT',
                             'OPTIONS', 'head', 'connect', 'HEADS', 'FOO',
                             'DELETE', 'PUT', 'TRACE'])
        version = rng.choice(['HTTP/1.1'] * 4 + ['HTTP/1.0'])
        target = '/%d' % n if method != 'CONNECT' else 'a%d.example:443' % n
        tag = 'q%d' % n
        line = '%s %s %s' % (method, target, version)
        if rng.random() < .4:
            body = rng.choice(BODY)
            w, _ = framed(rng, tag, line, body)
        else:
            body = b''
            extra = []
            if rng.random() < .2:
                extra = [('Upgrade', b'foo'), ('Connection', b'upgrade')]
            if rng.random() < .1:
                extra.append(('Connection', b'close'))
            w = wire.head(line, tagged(rng, tag, extra), rng)
        self.inb += w
        self.bodies[tag] = body
        self.pairs.append((tag, []))
        return method

    def tag(self):
        self.serial += 1
        return 'r%d' % self.serial

    def line(self, status):
        return '%s %03d %s' % (self.rng.choice(['HTTP/1.1'] * 4 + ['HTTP/1.0']),
                               status, self.rng.choice(['OK', '', 'x']))

    def add(self, k, tag, body):
        self.pairs[k][1].append(tag)
        self.bodies[tag] = body

    def interim(self, k):
        for _ in range(self.rng.choice([0, 0, 0, 0, 1, 1, 2, 4])):
            status = self.rng.choice([100, 100, 102, 103, 104, 199])
            tag = self.tag()
            if self.rng.random() < .3:
                w, how = framed(self.rng, tag, self.line(status), b'hello', True)
                self.rec.count('interim with length', how == 'length')
            else:
                w = wire.head(self.line(status), tagged(self.rng, tag, []),
                              self.rng)
            self.outb += w
            self.add(k, tag, b'')
            self.rec.count('interim')

    def final(self, k, method):
        """-> 'next', 'stop' (unbounded), 'tunnel', 'switch'"""
        rng, rec = self.rng, self.rec
        tag = self.tag()
        r = rng.random()
        if r < .04:
            had = bool(self.pairs[k][1])
            w, _ = framed(rng, tag, self.line(101), b'hello',
                          rng.random() < .9 or True)
            self.outb += w
            self.add(k, tag, b'')
            rec.count('switch')
            rec.count('interim before switch', had)
            return 'switch'
        status = rng.choice([200, 200, 200, 201, 204, 206, 299, 301, 304, 304,
                             400, 404, 407, 500, 599, 600, 999, 205])
        if method == 'CONNECT' and rng.random() < .6:
            status = rng.choice([400, 407, 500, 301, 304])
        if method == 'CONNECT' and 200 <= status < 300:
            w, how = framed(rng, tag, self.line(status), b'hello', True)
            self.outb += w
            self.add(k, tag, b'')
            rec.count('tunnel')
            return 'tunnel'
        if method == 'CONNECT':
            rec.count('CONNECT refused')
        if method == 'HEAD' or status in (204, 304):
            w, how = framed(rng, tag, self.line(status),
                            rng.choice([b'hello', b'', b'x' * 20000]), True)
            self.outb += w
            self.add(k, tag, b'')
            if method == 'HEAD':
                rec.count('HEAD')
                rec.count('HEAD with framing headers', how != 'none')
            elif status == 304:
                rec.count('304 with length', how == 'length')
            rec.count('no body due to status, many', len(self.pairs) > 2)
            return 'next'
        body = rng.choice(BODY)
        if rng.random() < .05:
            self.outb += wire.head(self.line(status), tagged(rng, tag, []), rng)
            self.add(k, tag, None)
            self.open_from = len(self.outb)
            rec.count('unbounded')
            return 'stop'
        w, _ = framed(rng, tag, self.line(status), body)
        self.outb += w
        self.add(k, tag, body)
        rec.count('head is not HEAD', method in ('head', 'HEADS'))
        return 'next'


def junk(rng):
    return rng.choice([b'', b'\x16\x03\x01', b'GET /x HTTP/1.1\r\nX-Tag: q98\r\n\r\n',
                       b'HTTP/1.1 200 OK\r\nX-Tag: r98\r\nContent-Length: 0\r\n\r\n',
                       b'PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n', b'x'])


def play(rng, rec):
    """-> (inbound, outbound, [(request tag, [response tags])], bodies,
           [box numbers with offsets])"""
    h = History(rng, rec)
    n = rng.choice([1, 2, 2, 3, 4, 6])
    methods, ends = [], []
    for _ in range(n):
        methods.append(h.request())
        ends.append(len(h.inb))
    boxes = []
    answered = n
    if rng.random() < .15:
        answered = rng.randrange(n)
        rec.count('missing')
    ending = None
    for k in range(answered):
        h.interim(k)
        ending = h.final(k, methods[k])
        if ending != 'next':
            break
    used = k + 1 if answered else 0
    if ending in (None, 'next') and answered < n and rng.random() < .5:
        h.interim(answered)
        if h.pairs[answered][1]:
            rec.count('only interim')
    if ending in ('tunnel', 'switch'):
        more_in, more_out = junk(rng), junk(rng)
        # requests after the switch are not requests
        h.inb += more_in
        h.pairs = h.pairs[:used]
        rest = len(h.inb) - ends[used - 1]
        if rest:
            boxes.append((1007, ends[used - 1]))
        at = len(h.outb)
        h.outb += more_out
        if more_out:
            boxes.append((1010, at))
        rec.count(ending + ' with data', bool(more_out or rest))
    elif ending == 'stop':
        # a body without limits swallows what comes after it
        for k in range(used, n):
            if rng.random() < .5:
                w, _ = framed(rng, 'r97', h.line(200), b'hello')
                h.outb += w
        tag = h.pairs[used - 1][1][-1]
        h.bodies[tag] = h.outb[h.open_from:]
        rec.count('unbounded swallows', bool(h.bodies[tag]))
    elif answered == n and rng.random() < .15:
        boxes.append((1008, None))
        rec.count('surplus')
        for _ in range(rng.choice([1, 1, 2, 3])):
            h.pairs.append((None, []))
            h.interim(len(h.pairs) - 1)
            tag = h.tag()
            status = rng.choice([200, 404, 204, 304])
            body = rng.choice(BODY) if status in (200, 404) else b''
            if status in (204, 304):
                w, _ = framed(rng, tag, h.line(status), b'hello', True)
            else:
                w, _ = framed(rng, tag, h.line(status), body)
            h.outb += w
            h.add(len(h.pairs) - 1, tag, body)
    if not h.outb:
        boxes.append((1009, None))
    return h, boxes


def tag_of(msg):
    return [bytes(e.value).decode('latin-1') for e in msg.header_entries
            if e.name == 'X-Tag']


def case(shard, i, rng, rec):
    h, boxes = play(rng, rec)
    inb, outb, pairs = h.inb, h.outb, h.pairs
    if shard == 'req':
        methods = inb
        if any(n == 1007 for n, _ in boxes):
            return              # only the responses say where requests end
        outb = None
        pairs = [(q, []) for q, _ in pairs if q]
        boxes = []
    elif shard == 'resp':
        # Nobody knows about HEAD and CONNECT here, so use surplus-like ones.
        h = History(rng, rec)
        for _ in range(rng.choice([1, 2, 4])):
            h.pairs.append((None, []))
            h.interim(len(h.pairs) - 1)
            h.final(len(h.pairs) - 1, 'GET')
            if outbound_over(h):
                break
        inb, outb, pairs, boxes = None, h.outb, h.pairs, []
        if h.bodies[pairs[-1][1][-1]] is None:
            h.bodies[pairs[-1][1][-1]] = b''
    spec = {'inbound': inb, 'outbound': outb}
    if shard == 'combined' and wire.COMBINED_OUT in inb:
        return
    exchs = wire.read(inb, outb, 'combined' if shard == 'combined' else
                      'streams')
    judge(rec, exchs, pairs, boxes, h.bodies, spec)
    if len(pairs) > 1 or boxes:
        rec.nontrivial((inb, outb))
        rec.sample(spec)
    if i % 5 == 0:
        html(rec, exchs, pairs, spec)


def outbound_over(h):
    tag = h.pairs[-1][1][-1]
    return h.bodies[tag] is None or b' 101 ' in h.outb


def judge(rec, exchs, pairs, boxes, bodies, spec):
    got, gotbox = [], []
    for e in exchs:
        if e.request is None and not e.responses:
            for c in e.complaints:
                gotbox.append((c.id, c.context.get('offset')
                               if c.id in (1007, 1010) else None))
            continue
        if e.notices:
            rec.fail('notice on exchange', repr(hp.ids(e)), spec)
        got.append((tag_of(e.request) if e.request else None,
                    [tag_of(r) for r in e.responses]))
        for r in e.responses:
            if r.request is not e.request:
                rec.fail('link', 'a response refers to another request', spec)
    want = [([q] if q else None, [[r] for r in rs]) for q, rs in pairs]
    if got != want:
        rec.fail('attribution', 'read %r, sent %r' % (got, want), spec)
        return
    if sorted(gotbox, key=str) != sorted(boxes, key=str):
        rec.fail('boxes', 'framing notices %r, expected %r' % (gotbox, boxes),
                 spec)
    for e in exchs:
        for m in ([e.request] if e.request else []) + list(e.responses):
            tag = tag_of(m)[0]
            if wire.body_of(m) != bodies[tag]:
                rec.fail('body', 'body of %s is %r, sent %r' % (
                    tag, wire.body_of(m), bodies[tag]), spec)


def html(rec, exchs, pairs, spec):
    for e in exchs:
        hp.httpolice.check_exchange(e)
    rec.count('html')
    got = []
    for sec in htmlrep.read(hp.report('html', exchs)):
        tags = [t.split(': ', 1)[1].strip() for m in sec['messages']
                for _, t in m['entries'] if t.lower().startswith('x-tag:')]
        if sec['messages']:
            got.append(tags)
    want = [([q] if q else []) + rs for q, rs in pairs]
    if got != want:
        rec.fail('html', 'the report shows %r, sent %r' % (got, want), spec)
