"""Generation of HTTP/1.x byte streams, and reading them back with HTTPolice."""

import gzip
import os
import shutil
import tempfile
import zlib

from httpolice import inputs
from httpolice.structure import okay
from vp import gen

FORBIDDEN = {'transfer-encoding', 'content-length', 'connection', 'upgrade'}
VALUE_BYTES = bytes(b for b in range(256) if b not in b'\r\n')
TCHARS = ("!#$%&'*+-.^_`|~0123456789abcdefghijklmnopqrstuvwxyz"
          'ABCDEFGHIJKLMNOPQRSTUVWXYZ')


class Tmp:

    def __enter__(self):
        self.dir = tempfile.mkdtemp(dir=os.environ.get('VP_TMP'))
        return self

    def __exit__(self, *_):
        shutil.rmtree(self.dir, ignore_errors=True)

    def put(self, name, data):
        path = os.path.join(self.dir, name)
        with open(path, 'wb') as f:
            f.write(data)
        return path


COMBINED_IN = b'======== BEGIN INBOUND STREAM ========\r\n'
COMBINED_OUT = b'======== BEGIN OUTBOUND STREAM ========\r\n'


def read(inb, outb, how='streams'):
    """Exchanges that HTTPolice reads from these streams (a list)."""
    with Tmp() as tmp:
        if how == 'combined':
            paths = [tmp.put('c', b'x\r\n' + COMBINED_IN + inb + COMBINED_OUT +
                             outb)]
            fmt = 'combined'
        elif outb is None:
            paths, fmt = [tmp.put('in', inb)], 'req-stream'
        elif inb is None:
            paths, fmt = [tmp.put('out', outb)], 'resp-stream'
        else:
            paths, fmt = [tmp.put('in', inb), tmp.put('out', outb)], 'streams'
        return list(inputs.formats[fmt](paths))


def entries(hs):
    return [(str(k), bytes(v)) for k, v in hs]


def body_of(msg):
    if msg.body is None:
        return None
    return bytes(msg.body) if okay(msg.body) else 'UNKNOWN'


def seen_request(req):
    if req is None:
        return None
    return {'method': str(req.method), 'target': str(req.target),
            'version': str(req.version), 'headers': entries(req.header_entries),
            'trailers': entries(req.trailer_entries), 'body': body_of(req)}


def seen_response(resp):
    return {'status': int(resp.status), 'reason': str(resp.reason),
            'version': str(resp.version),
            'headers': entries(resp.header_entries),
            'trailers': entries(resp.trailer_entries), 'body': body_of(resp)}


# -- well-formed streams

def token(rng, n=8):
    return ''.join(rng.choice(TCHARS) for _ in range(rng.randint(1, n)))


def raw_value(rng):
    r = rng.random()
    if r < .7:
        return rng.choice([b'', b'x', b'foo bar', b'a, b', b'"q\\"x"', b'1',
                           b'caf\xc3\xa9', b'a:b', b':', b'a  b', b'x\ty',
                           b'HTTP/1.1 200 OK', b'GET / HTTP/1.1'])
    return bytes(rng.choice(VALUE_BYTES)
                 for _ in range(rng.randint(0, 30))).strip(b' \t')


def some_headers(rng, pool, n=None, wild=.2):
    hs = []
    for _ in range(rng.choice([0, 0, 1, 2, 3, 6]) if n is None else n):
        if rng.random() < .6:
            name = gen.recase(rng.choice(pool), rng)
            if name.lower() in FORBIDDEN:
                continue
            hs.append((name, gen.value(name, rng, wild)))
        else:
            name = token(rng)
            if name.lower() in FORBIDDEN:
                continue
            hs.append((name, raw_value(rng)))
    return hs


def some_bytes(rng):
    r = rng.random()
    if r < .2:
        return b''
    if r < .5:
        return rng.choice([b'hello', b'\r\n', b'\r\n\r\n', b'0\r\n\r\n', b'\n',
                           b'GET / HTTP/1.1\r\n\r\n', b' ', b'a', b'\x00',
                           b'HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n'])
    if r < .93:
        n = rng.randint(1, 300)
    else:
        n = rng.choice([4095, 4096, 8191, 8192, 8193, 16383, 16384, 16385,
                        20000, 70000])
    blob = bytes(rng.randrange(256) for _ in range(min(n, 97)))
    return (blob * (n // len(blob) + 1))[:n]


def ows(rng):
    return rng.choice([b'', b' ', b' ', b' ', b' ', b'  ', b'\t', b' \t '])


def head(line, headers, rng):
    out = [line.encode('iso-8859-1'), b'\r\n']
    for k, v in headers:
        out += [k.encode('iso-8859-1'), b':', ows(rng), v,
                rng.choice([b'', b'', b'', b' ', b'\t']), b'\r\n']
    return b''.join(out) + b'\r\n'


def chunk_ext(rng):
    return rng.choice([b''] * 6 + [b';a', b';a=b', b'; a=b', b';a="b c"',
                                   b';a="x;y";b=1', b' ; a=b', b' ',
                                   b';ieof', b';sig="\xff"'])


def chunk_size(n, rng):
    s = b'%x' % n
    if rng.random() < .3:
        s = s.upper()
    if rng.random() < .2:
        s = b'0' * rng.choice([1, 2, 7, 16]) + s
    return s


def chunked(data, trailers, rng):
    out = []
    i = 0
    while i < len(data):
        n = rng.choice([1, 2, 9, 10, 11, 15, 16, 17, 100, 255, 256, 4096, 8192,
                        len(data)])
        if len(data) > 3000:
            n = max(n, 500)
        part = data[i:i + n]
        i += len(part)
        out += [chunk_size(len(part), rng), chunk_ext(rng), b'\r\n', part,
                b'\r\n']
    out += [b'0' * rng.choice([1, 1, 1, 2, 5]), chunk_ext(rng), b'\r\n']
    for k, v in trailers:
        out += [k.encode('iso-8859-1'), b':', ows(rng), v, b'\r\n']
    return b''.join(out) + b'\r\n'


def compress(coding, data):
    if coding in ('gzip', 'x-gzip'):
        return gzip.compress(data, mtime=0)
    return zlib.compress(data)


def te_header(codings, rng):
    """One or more Transfer-Encoding fields for these codings."""
    cs = [c if rng.random() < .8 else rng.choice([c.upper(), c.title()])
          for c in codings]
    if len(cs) > 1 and rng.random() < .3:
        return [('Transfer-Encoding', c.encode()) for c in cs]
    return [('Transfer-Encoding', rng.choice([', ', ',', ' , ', ',, '])
             .join(cs).encode())]


def place(headers, extra, rng):
    hs = list(headers)
    i = rng.randint(0, len(hs))
    return hs[:i] + extra + hs[i:]


def with_body(headers, data, rng, close_ok, kinds):
    """-> (headers, payload bytes on the wire, trailers, kind)"""
    kind = rng.choice(kinds)
    if kind == 'close' and not close_ok:
        kind = 'length'
    if kind == 'length':
        n = b'%d' % len(data)
        if rng.random() < .1:
            n = b'000' + n
        return place(headers, [('Content-Length', n)], rng), data, [], kind
    if kind == 'chunked':
        trailers = some_headers(rng, ['ETag', 'Foo', 'Link', 'X-Foo'],
                                rng.choice([0, 0, 0, 1, 3]))
        codings = rng.choice([[], [], [], ['gzip'], ['deflate'], ['x-gzip'],
                              ['gzip', 'deflate']])
        wire = data
        for c in codings:
            wire = compress(c, wire)
        hs = place(headers, te_header(codings + ['chunked'], rng), rng)
        return hs, chunked(wire, trailers, rng), trailers, kind
    # until the connection is closed
    codings = rng.choice([[], [], ['gzip'], ['deflate']])
    wire = data
    for c in codings:
        wire = compress(c, wire)
    hs = place(headers, te_header(codings, rng), rng) if codings else headers
    return list(hs), wire, [], kind


def wf_request(rng):
    method = rng.choice(['GET', 'GET', 'POST', 'HEAD', 'HEAD', 'PUT', 'DELETE',
                         'OPTIONS', 'FOO', 'get', 'head', token(rng)])
    target = rng.choice(['/', '/a?b=c', '*', 'http://example.com/', 'a:80',
                         '/%20', '/\xe9', '/"', '?', '/' + 'x' * 5000])
    version = rng.choice(['HTTP/1.1', 'HTTP/1.1', 'HTTP/1.0'])
    hs = some_headers(rng, gen.REQUEST_HEADERS)
    data, wire, trailers = b'', b'', []
    if rng.random() < .5:
        data = some_bytes(rng)
        if rng.random() < .03:
            data += COMBINED_IN
        hs, wire, trailers, _ = with_body(hs, data, rng, False,
                                          ['length', 'chunked'])
    line = '%s %s %s' % (method, target, version)
    req = {'method': method, 'target': target, 'version': version,
           'headers': hs, 'trailers': trailers, 'body': data}
    return req, head(line, hs, rng) + wire


REASONS = ['OK', '', 'Not Found', 'a  b', ' x', 'caf\xe9', 'HTTP/1.1 200 OK',
           '\x00', 'x\t']


def wf_response(req, rng, last, interim=False, status=None):
    """-> (response, wire, closes?)"""
    if interim:
        status = rng.choice([100, 102, 103, 103, 199])
    elif status is None:
        status = rng.choice([200, 200, 200, 204, 304, 404, 500, 206, 302, 299,
                             999, 205, 600])
    version = rng.choice(['HTTP/1.1', 'HTTP/1.1', 'HTTP/1.0'])
    reason = rng.choice(REASONS)
    hs = some_headers(rng, gen.RESPONSE_HEADERS)
    data, wire, trailers, kind = b'', b'', [], None
    bodiless = interim or status in (204, 304) or \
        (req is not None and req['method'] == 'HEAD')
    if bodiless:
        # these headers do not mean that a body follows
        if rng.random() < .4:
            hs = place(hs, rng.choice([
                [('Content-Length', b'%d' % rng.choice([0, 5, 10 ** 12]))],
                [('Transfer-Encoding', b'chunked')],
                [('Transfer-Encoding', b'gzip, chunked')]]), rng)
    else:
        data = some_bytes(rng)
        if rng.random() < .03:
            data += b'\r\n'.join(rng.sample([COMBINED_IN, COMBINED_OUT,
                                             COMBINED_OUT], 2))
        hs, wire, trailers, kind = with_body(
            hs, data, rng, last, ['length', 'length', 'chunked', 'chunked',
                                  'close'])
    line = '%s %03d %s' % (version, status, reason)
    resp = {'status': status, 'reason': reason, 'version': version,
            'headers': hs, 'trailers': trailers, 'body': data}
    return resp, head(line, hs, rng) + wire, kind == 'close'


def wf_connection(rng, n=None):
    """A well-formed connection.

    -> (inbound, outbound, [(request, [responses])], ending)
    `ending` is None, or a notice (1011, 1012) expected on the last response.
    """
    n = n or rng.choice([1, 1, 2, 3, 5])
    ending = rng.choice([None] * 6 + [1011, 1012])
    inb, outb, exchanges = [], [], []
    for i in range(n):
        last = i == n - 1
        req, wire = wf_request(rng)
        if last and ending == 1012:
            req = {'method': 'CONNECT', 'target': 'example.com:443',
                   'version': 'HTTP/1.1', 'headers': [], 'trailers': [],
                   'body': b''}
            wire = b'CONNECT example.com:443 HTTP/1.1\r\n\r\n'
        inb.append(wire)
        resps = []
        for _ in range(rng.choice([0, 0, 0, 0, 1, 1, 2, 3])):
            resp, wire, _ = wf_response(req, rng, last, interim=True)
            resps.append(resp)
            outb.append(wire)
        if last and ending is None and rng.random() < .08:
            pass                    # no final response
        elif last and ending is not None:
            status = 101 if ending == 1011 else rng.choice([200, 200, 204])
            hs = some_headers(rng, gen.RESPONSE_HEADERS)
            resps.append({'status': status, 'reason': 'x',
                          'version': 'HTTP/1.1', 'headers': hs,
                          'trailers': [], 'body': b''})
            outb.append(head('HTTP/1.1 %d x' % status, hs, rng))
        else:
            resp, wire, _ = wf_response(req, rng, last)
            resps.append(resp)
            outb.append(wire)
        exchanges.append((req, resps))
    return b''.join(inb), b''.join(outb), exchanges, ending


# -- hostile streams

SNIPPETS = [
    b'\r\n', b'\n', b'\r', b'\r\n\r\n', b' ', b'\t', b':', b'0\r\n\r\n',
    b'Content-Length: 5\r\n', b'Content-Length: -1\r\n',
    b'Content-Length: 5, 5\r\n', b'Content-Length: \r\n',
    b'Content-Length: 99999999999\r\n', b'Content-Length: +5\r\n',
    b'Content-Length: 0\r\n', b'content-length: 3\r\n',
    b'Content-Length : 3\r\n', b'Content-Length: 5\n',
    b'Transfer-Encoding: chunked\r\n', b'Transfer-Encoding: gzip\r\n',
    b'Transfer-Encoding: chunked, chunked\r\n', b'Transfer-Encoding:\r\n',
    b'Transfer-Encoding: foo, chunked\r\n',
    b'Transfer-Encoding: identity\r\n', b'Transfer-Encoding: CHUNKED\r\n',
    b'Transfer-Encoding: chunked;a=b\r\n', b'transfer-encoding:chunked \r\n',
    b'Transfer-Encoding: gzip, chunked\r\n',
    b'Transfer-Encoding: deflate, chunked\r\n',
    b'Transfer-Encoding: foo;a="chunked, x", chunked\r\n',
    b'Transfer-Encoding: "chunked\r\n', b'Transfer-Encoding: x\r\n',
    b'Transfer-Encoding: chunked, foo, chunked\r\n\r\n0\r\n\r\n',
    b'Transfer-Encoding: foo, chunked\r\n\r\n1\r\na\r\n0\r\n\r\n',
    b'Transfer-Encoding: chunked, chunked\r\n\r\n1\r\na\r\n0\r\n\r\n',
    b'Transfer-Encoding: gzip, chunked\r\n\r\n1\r\na\r\n0\r\n\r\n',
    b'Transfer-Encoding:\r\n chunked\r\n', b'Foo: bar\r\n baz\r\n',
    b'Foo: bar\r\n\tbaz\r\n', b'Foo\r\n', b'Foo : bar\r\n', b': bar\r\n',
    b' Foo: bar\r\n', b'Foo: bar\n', b'Foo: bar\r\r\n', b'Foo: \r\n \r\n',
    b'5\r\nhello\r\n', b'-1\r\n', b'+5\r\nhello\r\n', b'0x5\r\nhello\r\n',
    b'ffffffffff\r\n', b'40000001\r\n', b'1_0\r\n0123456789abcdef\r\n',
    b'5;a=b\r\nhello\r\n', b'5 \r\nhello\r\n', b' 5\r\nhello\r\n',
    b'5\nhello\n', b'00005\r\nhello\r\n', b'\r\n5\r\nhello\r\n', b'5\r\nhel',
    b'5\r\nhelloo\r\n', b'0\r\nFoo: bar\r\n\r\n', b'0\r\nFoo\r\n\r\n', b'\xb2\r\n',
    b'GET / HTTP/1.1\r\n\r\n', b'GET  / HTTP/1.1\r\n\r\n', b'GET /\r\n',
    b'GET / HTTP/1.1\r\n', b'GET / HTTP/11\r\n\r\n', b'GET / http/1.1\r\n\r\n',
    b'GET / HTTP/2.0\r\n\r\n', b'GET / HTTP/1.1 \r\n\r\n', b'GET / a HTTP/1.1\r\n\r\n',
    b'HEAD / HTTP/1.1\r\n\r\n', b'head / HTTP/1.1\r\n\r\n',
    b'CONNECT a:1 HTTP/1.1\r\n\r\n', b' / HTTP/1.1\r\n\r\n', b'POST / HTTP/1.1\r\n',
    b'HTTP/1.1 200 OK\r\n', b'HTTP/1.1 200 OK\r\n\r\n', b'HTTP/1.1 200\r\n\r\n',
    b'HTTP/1.1 200 \r\n\r\n', b'HTTP/1.1 100 Continue\r\n\r\n',
    b'HTTP/1.1 101 x\r\n\r\n', b'HTTP/1.1 204 x\r\n\r\n', b'HTTP/1.1 304 x\r\n\r\n',
    b'HTTP/1.1 20 OK\r\n\r\n', b'HTTP/1.1 2000 OK\r\n\r\n', b'HTTP/1.1  200 OK\r\n\r\n',
    b'HTTP/1.1 -20 OK\r\n\r\n', b'HTTP/1.0 200 OK\r\n\r\n', b'ICY 200 OK\r\n\r\n',
    b'HTTP/1.1 000 x\r\n\r\n', b'HTTP/1.1 199 x\r\n\r\n', b'HTTP/1.1 299 x\r\n\r\n',
    b'HTTP/1.1 103 x\r\nContent-Length: 5\r\n\r\n', b'PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n',
    b'X' * 16382 + b'\r\n', b'X' * 16383 + b'\r\n', b'F: ' + b'X' * 16379 + b'\r\n',
    b'F: ' + b'X' * 16380 + b'\r\n', b'F: ' + b'X' * 16381 + b'\n',
    b'G /' + b'X' * 16370 + b' HTTP/1.1\r\n\r\n', b'F: ' + b'X' * 16382,
    b'5;' + b'x' * 16380 + b'\r\nhello\r\n', b'Content-Length: ' + b'0' * 8000 + b'5\r\n',
    b'f' * 4000 + b'\r\nabc', b'1' + b'0' * 16000 + b'\r\n',
    b'Content-Length: ' + b'9' * 5000 + b'\r\n',
    b'a' * 8191, b'\x00', b'\xff', b'"',
]


def starts(data):
    """Positions just after line ends: interesting places to mutate."""
    r = [0]
    i = data.find(b'\n')
    while i >= 0 and len(r) < 400:
        r.append(i + 1)
        i = data.find(b'\n', i + 1)
    return r


def mutate(data, rng):
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 5])):
        op = rng.randrange(8)
        if rng.random() < .7:
            i = min(len(data), max(0, rng.choice(starts(data)) +
                                   rng.choice([0, 0, 0, 0, -1, -2, 1, 2])))
        else:
            i = rng.randint(0, len(data))
        if op <= 2:
            data = data[:i] + rng.choice(SNIPPETS) + data[i:]
        elif op == 3:
            data = data[:i] + data[i + 1:]
        elif op == 4:
            data = data[:i] + bytes([rng.choice(gen.JUNK)]) + data[i + 1:]
        elif op == 5:
            nl = data.find(b'\n', i)
            data = data[:i] + (data[nl + 1:] if nl >= 0 else b'')
        elif op == 6:
            data = data[:i]
        else:
            k = data.find(b'\r\n', i)
            if k >= 0:
                data = data[:k] + data[k + 1:]
    return data


def from_snippets(rng):
    return b''.join(rng.choice(SNIPPETS) for _ in range(rng.randint(0, 8)))


def huge_numbers(rng):
    """Numbers that no message would be likely to have."""
    def number(digits):
        n = rng.choice([3, 9, 18, 40, 400, 1000, 1300, 4000, 4400, 8000, 16000])
        return bytes(rng.choice(digits) for _ in range(n))

    def message(first):
        r = rng.random()
        if r < .5:
            first += b'Transfer-Encoding: chunked\r\n\r\n'
            first += rng.choice([b'', b'3\r\nabc\r\n', b'000' * 200])
            return first + number(b'9123456789abcdefABCDEF') + \
                rng.choice([b'\r\n', b'\r\nabc\r\n', b';a=b\r\n', b''])
        name = rng.choice([b'Content-Length', b'Content-Length', b'Age',
                           b'Cache-Control: max-age=0,a', b'Retry-After'])
        return first + name + b': ' + number(b'0123456789') + b'\r\n\r\nabc'

    return message(b'POST / HTTP/1.1\r\nHost: a\r\n'), \
        message(b'HTTP/1.1 200 OK\r\n')


def hostile_pair(rng):
    r = rng.random()
    if r < .75:
        inb, outb, _, _ = wf_connection(rng)
        which = rng.randrange(3)
        if which != 1:
            inb = mutate(inb, rng)
        if which != 0:
            outb = mutate(outb, rng)
    elif r < .9:
        inb = rng.choice([b'POST / HTTP/1.1\r\n', b'GET / HTTP/1.1\r\n', b'']) + \
            from_snippets(rng)
        outb = rng.choice([b'HTTP/1.1 200 OK\r\n', b'']) + from_snippets(rng)
    elif r < .93:
        inb, outb = huge_numbers(rng)
    else:
        inb = bytes(rng.choice(gen.JUNK) for _ in range(rng.randint(0, 40)))
        outb = bytes(rng.choice(b'HTP/1. 20OK\r\n:a')
                     for _ in range(rng.randint(0, 40)))
    if rng.random() < .05:
        inb, outb = outb, inb
    return inb, outb
