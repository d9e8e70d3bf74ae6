"""Exchanges aimed at one area of rules.

Each recipe draws from small pools in which the conditions of the area meet
often, so that every rule is seen broken, nearly broken, and kept.
"""

import base64
import datetime

from vp import gen, hp

C11 = ['HTTP/1.1'] * 6 + ['HTTP/1.0', 'HTTP/2', None]


def near_now(rng):
    """A date close to the real clock (but never within seconds of a limit)."""
    off = rng.choice([60, 3600, 5 * 3600, 9 * 3600, 14 * 3600, 86400 * 2, 25,
                      -25, -60, -3600, -5 * 3600, -9 * 3600, -86400, 0])
    dt = datetime.datetime.utcnow().replace(microsecond=0) + \
        datetime.timedelta(seconds=off)
    return rng.choice([gen.imf, gen.imf, gen.imf, gen.rfc850, gen.asctime])(dt)


def age_for(rng, date_off):
    return b'%d' % max(0, rng.choice([0, 5, 60, date_off, date_off + 300,
                                      date_off - 300, 10 ** 9]))


def pick(rng, values, name):
    v = rng.choice(values) if values else gen.nice_value(name, rng)
    v = v(rng) if callable(v) else v
    if values and rng.random() < .06:
        w = rng.choice(values)
        v = gen.reshuffle(v, rng, w(rng) if callable(w) else w)
    return v


def some(rng, pool, p):
    """pool: {name: [values] or None, or (probability, [values])}"""
    r = []
    for name, values in pool.items():
        prob = p
        if isinstance(values, tuple):
            prob, values = values
        if rng.random() < prob:
            r.append((gen.recase(name, rng),
                      gen.clean_value(pick(rng, values, name))))
            if rng.random() < .03:
                r.append((gen.recase(name, rng),
                          gen.clean_value(pick(rng, values, name))))
    if rng.random() < .5:
        rng.shuffle(r)
    return r


def base_request(rng, method, hs, target='/', version='HTTP/1.1', body=b'',
                 scheme='http', trailers=None):
    if rng.random() < .9:
        hs.insert(0, ('Host', b'example.com'))
    if rng.random() < .9:
        hs.append(('User-Agent', b'foo/1'))
    if body and rng.random() < .8:
        hs.append(('Content-Length', b'%d' % len(body)))
    return hp.req(method, target, hs, body, version, scheme, trailers)


def base_response(rng, status, hs, body=b'', version='HTTP/1.1', reason='OK',
                  trailers=None):
    names = [k.lower() for k, _ in hs]
    if 'date' not in names and rng.random() < .9:
        hs.append(('Date', gen.imf(gen.BASE)))
    if rng.random() < .8 and status // 100 != 1 and status not in (204, 304) \
            and 'content-length' not in names and body is not None:
        hs.append(('Content-Length', b'%d' % len(body)))
    return hp.resp(status, hs, body, version, reason, trailers)


QUOTED = {
    'Accept': [b'text/plain;a="x%sy"', b'text/html;q=1;a="%s"'],
    'Forwarded': [b'for="x%sy"', b'for=_a;foo="%s"'],
    'Link': [b'</x>; rel=next; title="a%sb"', b'</x>; rel="next"; foo="%s"',
             b'<http://x/%s>; rel=next'],
    'Prefer': [b'foo="a%sb"', b'foo; bar="%s"', b'return="x%s"'],
    'TE': [b'gzip; a="x%sy"'],
    'Transfer-Encoding': [b'foo; a="x%sy"', b'foo;a="%s", chunked'],
    'Warning': [b'299 - "a%sb"'], 'Via': [b'1.1 x (a%sb)'],
    'Content-Type': [b'text/plain; a="x%sy"'],
    'Cache-Control': [b'foo="a%sb"'], 'User-Agent': [b'x (a%sb)'],
    'Authorization': [b'Foo a="x%sy"'],
    'Content-Disposition': [b'attachment; filename="a%sb"'],
    'Strict-Transport-Security': [b'max-age=1; foo="a%sb"'],
    'Accept-Patch': [b'text/plain;a="x%sy"'],
    'Accept-Post': [b'text/plain;a="x%sy"'],
    'Preference-Applied': [b'foo="a%sb"'], 'Alt-Svc': [b'h2=":1"; a="%s"'],
    'Content-Range': [b'foo a%sb'], 'Referer': [b'/a%sb'], 'Age': [b'1'],
}


def quoted(rng):
    """Commas and semicolons in quotes."""
    def hs(names):
        return [(n, rng.choice(QUOTED[n]).replace(b'%s', rng.choice(
            [b',', b';', b'', b'\\"', b', ;', b'\\x', b'\\,', b' '])))
            for n in rng.sample(names, rng.choice([1, 1, 2, 3]))]
    q = ['Accept', 'Forwarded', 'Link', 'Prefer', 'TE', 'Transfer-Encoding',
         'Warning', 'Via', 'Content-Type', 'Cache-Control', 'User-Agent',
         'Authorization', 'Referer']
    r = ['Link', 'Warning', 'Via', 'Content-Type', 'Cache-Control',
         'Transfer-Encoding', 'Content-Disposition', 'Accept-Patch',
         'Strict-Transport-Security', 'Accept-Post', 'Preference-Applied',
         'Alt-Svc', 'Content-Range', 'Age']
    return {'req': base_request(rng, 'GET', hs(q)),
            'resps': [base_response(rng, 200, hs(r), b'x')]}


def connecting(rng):
    method = rng.choice(['CONNECT', 'CONNECT', 'GET', 'HEAD'])
    req = base_request(
        rng, method, some(rng, {'Host': (.1, None)}, 0),
        'example.com:443' if method == 'CONNECT' else '/',
        rng.choice(['HTTP/1.1', 'HTTP/1.1', 'HTTP/1.0', 'HTTP/2']))
    rh = some(rng, {
        'Connection': (.5, [b'close', b'Close', b'foo, close']),
        'Content-Length': (.4, [b'0', b'5']),
        'Transfer-Encoding': (.4, [b'chunked', b'gzip', b'Chunked'])}, 0)
    return {'req': req, 'resps': [base_response(
        rng, rng.choice([200, 204, 299, 407, 101, 304]), rh,
        rng.choice([b'', b'hello']))]}


def structure(rng):
    """C15"""
    r = rng.random()
    if r < .12:
        return quoted(rng)
    if r < .2:
        return connecting(rng)
    r = rng.random()
    method = rng.choice(['GET', 'POST', 'PUT', 'HEAD', 'OPTIONS', 'CONNECT',
                         'TRACE', 'DELETE', 'PATCH', 'get', 'Post', 'pROPFIND',
                         'PROPFIND', 'FOO', 'foo', 'G\xebT', 'a b', ''])
    if r < .7:
        method = rng.choice(['GET', 'POST', 'PUT', 'HEAD', 'OPTIONS',
                             'CONNECT', 'DELETE'])
    target = rng.choice({
        'CONNECT': ['example.com:443', 'example.com', '/', 'x:y:z', '[::1]:1'],
        'OPTIONS': ['*', '/', 'http://example.com', '**', 'x']}.get(
            method, ['/', '/', '/', 'http://example.com/a', '*', 'a', '/a#b',
                     'http://example.com/#x', 'example.com:80', '//', '/\xff',
                     'HTTPS://x/']))
    qh = some(rng, {
        'Content-Length': (.2, [b'0', b'5', b'x', b'']),
        'Transfer-Encoding': (.2, None),
        'TE': (.25, None), 'Connection': (.4, None), 'Trailer': (.2, None),
        'Expect': (.25, None), 'Via': (.15, None), 'Max-Forwards': (.15, None),
        'Upgrade': (.1, None), 'Content-Type': (.3, [b'text/plain']),
        'Content-Language': (.1, [b'en']), 'Content-Encoding': (.1, [b'gzip']),
        'Keep-Alive': (.07, [b'5']), 'X-Foo': (.1, [b'1']),
        'X-Content-Type-Options': (.05, [b'nosniff']),
        'Cookie2': (.05, [b'$Version=1']), 'ETag': (.05, [b'"x"']),
        'Server': (.05, [b'x']), 'Host': (.05, None), 'Foo': (.1, [b'x']),
        'Warning': (.1, [b'214 - "x"']), 'Set-Cookie': (.05, [b'a=b']),
        'Link': (.1, None), 'Forwarded': (.1, None),
        'F\xf6o': (.02, [b'x']), 'a b': (.02, [b'']), '': (.01, [b'x']),
    }, .2)
    rh = some(rng, {
        'Content-Length': (.2, [b'0', b'5', b'x', b'']),
        'Transfer-Encoding': (.25, None), 'Connection': (.4, None),
        'Trailer': (.2, None), 'Via': (.3, None),
        'Upgrade': (.15, None), 'Content-Type': (.3, [b'text/plain']),
        'Content-Language': (.1, [b'en']), 'TE': (.05, None),
        'X-Foo': (.1, [b'1']), 'x-frame-options': (.05, [b'DENY']),
        'Warning': (.2, [b'214 - "x"', b'199 - "x"']), 'Host': (.05, [b'x']),
        'Cache-Control': (.2, [b'no-transform', b'no-transform=1', b'public']),
        'Set-Cookie2': (.05, [b'a']), 'Keep-Alive': (.07, [b'5']),
        'User-Agent': (.05, [b'x']), 'Foo': (.1, [b'x']),
        'Content-Disposition': (.1, None), 'Alt-Svc': (.1, None),
        'F\xf6o': (.02, [b'x']), 'a:b': (.02, [b'']),
    }, .2)
    tr = some(rng, {'Foo': [b'1'], 'ETag': [b'"x"'], 'Host': [b'x'],
                    'Content-Length': [b'5'], 'Via': [b'1.1 x'],
                    'Content-Type': [b'text/plain'], 'Age': [b'1']}, .3) \
        if rng.random() < .2 else None
    for hs in (qh, rh):
        if tr and rng.random() < .7:
            hs.append(('Trailer', b', '.join(
                k.encode() for k, _ in tr if rng.random() < .8)))
    body = rng.choice([b'', b'', b'x', b'hello', None])
    req = base_request(rng, method, qh, target, rng.choice(C11), body,
                       rng.choice(['http', 'https', None, 'foo']),
                       tr if rng.random() < .5 else None)
    resps = []
    for st in rng.choice([[200], [200], [200], [204], [100, 200], [101],
                          [100, 101], [203], [102, 204], [304], [404], [200,
                          200], [500, 200], [100], [206], [302], [101, 200],
                          [103, 200], [600], [99], [426]]):
        b = body if st // 100 == 2 else b''
        resps.append(base_response(
            rng, st, list(rh) if rng.random() < .8 else [], b, rng.choice(C11),
            rng.choice(['OK', 'OK', '', None, 'a\x01b', 'caf\xe9', 'a\tb',
                        '\u044f', 'a\x7fb']),
            tr if rng.random() < .5 else None))
    return {'req': req if rng.random() < .95 else None, 'resps': resps}


UP = ['h2c', 'websocket', 'foo/1', 'foo/2', 'foo', 'WebSocket', 'h2c/1']
SELF = [b'/x', b'http://example.com/x', b'x', b'', b'/x#f', b'/y', b'/', b'?q',
        b'/x?q', b'/x?r', b'http://example.com/', b'https://example.com/x',
        b'#f', b'//example.com/x', b'http://example.com', b'http://example.net/x',
        b'HTTP://example.com/x', b'../x', b'./x', b'//example.com', b'/X']


def sharp_statuses(rng):
    kind = rng.choice([0, 0, 1, 1, 1, 2, 2, 3, 4, 5, 6, 7])
    method, target, body, rbody = 'GET', '/x', b'', b'hello'
    qh, rh = [], []
    versions = [rng.choice(['HTTP/1.1'] * 5 + ['HTTP/1.0', 'HTTP/2', None])
                for _ in 'qr']
    scheme = rng.choice(['http', 'http', 'http', 'https', None, 'foo'])

    def ups(r):
        return ', '.join(r.choice(UP)
                         for _ in range(r.choice([1, 1, 2]))).encode()
    if kind == 0:       # upgrades
        st = rng.choice([101, 101, 426, 426, 200, 206, 404, 204, 500])
        method = rng.choice(['GET', 'OPTIONS', 'POST'])
        qh = some(rng, {
            'Upgrade': (.8, [ups]),
            'HTTP2-Settings': (.5, [b'AAMA', b'x y', b'']),
            'Connection': (.8, [b'upgrade, http2-settings', b'upgrade'])}, 0)
        rh = some(rng, {
            'Upgrade': (.85, [ups, ups, b'']),
            'Connection': (.9, [b'upgrade', b'Upgrade, close', b'close'])}, 0)
    elif kind == 1:     # references to the request itself
        st = rng.choice([200, 201, 203, 204, 206, 304, 300, 301, 302, 303, 307,
                         308, 404, 202])
        method = rng.choice(['GET', 'HEAD', 'DELETE', 'POST', 'PUT', 'PATCH'])
        target = rng.choice(['/x', '/x', '/x?q', '/', 'http://example.com/x',
                             'http://example.com', 'http://example.net/x'])
        rh = some(rng, {'Location': (.6, SELF),
                        'Content-Location': (.6, SELF)}, 0)
    elif kind == 2:     # requests with bodies and what they call for
        st = rng.choice([200, 201, 201, 202, 204, 404, 409, 411, 413, 413, 415,
                         415, 417])
        method = rng.choice(['POST', 'PUT', 'GET', 'HEAD', 'OPTIONS', 'DELETE',
                             'CONNECT', 'TRACE', 'PATCH', 'REPORT'])
        body = rng.choice([b'', b'', b'x', None])
        qh = some(rng, {'Content-Type': (.4, [b'text/plain']),
                        'Content-Length': (.4, [b'0', b'1', b'x']),
                        'Content-Range': (.4, [b'bytes 0-4/5', b'x']),
                        'Expect': (.4, [b'100-continue', b'x'])}, 0)
        rh = some(rng, {'Location': (.4, [b'/y#z', b'/y', b'/y#', b'http://x/']),
                        'Accept-Patch': (.1, [b'text/plain'])}, 0)
    elif kind == 3:     # empty responses
        st = rng.choice([200, 202, 205, 300, 302, 303, 400, 404, 406, 409, 410,
                         428, 429, 451, 499, 500, 503, 505, 511, 599, 304, 204])
        method = rng.choice(['GET', 'GET', 'HEAD', 'POST', 'CONNECT'])
        rbody = rng.choice([b'', b'', b'', b'x', None])
        rh = some(rng, {'Location': (.4, [b'/y']),
                        'Content-Length': (.4, [b'0', b'10']),
                        'Transfer-Encoding': (.1, [b'chunked'])}, 0)
    elif kind == 4:     # Allow
        st = rng.choice([200, 204, 405, 405, 404, 201, 301])
        method = rng.choice(['GET', 'OPTIONS', 'PUT', 'get', 'FOO'])
        rh = some(rng, {'Allow': (.85, [b'GET, PUT', b'PUT', b'get', b'FOO, GET',
                                        b'', b'OPTIONS', b'GET,,PUT', b'x y'])},
                  0)
    elif kind == 5:     # CONNECT, OPTIONS *
        method = rng.choice(['CONNECT', 'OPTIONS', 'OPTIONS', 'TRACE'])
        target = rng.choice({'CONNECT': ['example.com:443', '/']}.get(
            method, ['*', '*', '/', 'http://example.com']))
        st = rng.choice([200, 204, 300, 301, 302, 303, 307, 308, 304, 404])
        body = rng.choice([b'', b'x'])
        rh = some(rng, {'Location': (.5, SELF), 'Connection': (.4, [b'close']),
                        'Content-Length': (.3, [b'0']),
                        'Transfer-Encoding': (.3, [b'chunked'])}, 0)
    elif kind == 6:     # negotiation, versions, 421
        st = rng.choice([406, 406, 505, 421, 428, 200])
        method = rng.choice(['GET', 'HEAD', 'POST', 'PUT', 'FOO'])
        qh = some(rng, {'Accept': (.2, [b'*/*']),
                        'Accept-Language': (.4, [b'en']),
                        'Accept-Encoding': (.2, [b'gzip']),
                        'Accept-Charset': (.15, [b'utf-8']),
                        'If-Match': (.2, [b'"a"']),
                        'If-Schedule-Tag-Match': (.1, [b'"a"']),
                        'TE': (.1, [b'gzip']), 'Prefer': (.1, [b'foo'])}, 0)
        rh = some(rng, {'Cache-Control': (.5, [b'no-store', b'public']),
                        'Alt-Svc': (.4, [b'clear', b'x'])}, 0)
        rbody = rng.choice([b'', b'x'])
    else:               # interim responses
        st = rng.choice([100, 101, 102, 103, 199, 204, 99, 600, 305, 306, 402])
        rh = some(rng, {'Content-Length': (.2, [b'0']),
                        'Transfer-Encoding': (.2, [b'chunked']),
                        'Content-Type': (.2, [b'text/plain']),
                        'ETag': (.2, [b'"x"']), 'Vary': (.1, [b'Foo']),
                        'Link': (.3, [b'</a>; rel=preload']),
                        'Upgrade': (.3, [b'foo']),
                        'Retry-After': (.2, [b'5']), 'Location': (.2, [b'/']),
                        'Connection': (.4, [b'upgrade', b'close'])}, 0)
        rbody = b''
    return {'req': base_request(rng, method, qh, target, versions[0], body,
                                scheme) if rng.random() < .97 else None,
            'resps': [base_response(rng, st, rh, rbody, versions[1])]}


def statuses(rng):
    """C16"""
    if rng.random() < .75:
        return sharp_statuses(rng)
    method = rng.choice(['GET', 'GET', 'HEAD', 'POST', 'PUT', 'DELETE',
                         'CONNECT', 'OPTIONS', 'TRACE', 'PATCH', 'PROPFIND',
                         'FOO'])
    uri = rng.choice(['/', '/x', '/x?q', 'http://example.com/x', '*',
                      'example.com:443'])
    if rng.random() < .7:
        uri = {'CONNECT': 'example.com:443', 'OPTIONS': rng.choice(
            ['*', '/'])}.get(method, rng.choice(['/x', '/']))
    me = [b'/x', b'http://example.com/x', b'/', b'x', b'', b'/x#f', b'/y',
          b'http://example.com/', b'https://example.com/x', b'?q', b'#f',
          b'//example.com/x', b'http://example.com']
    body = rng.choice([b'', b'', b'hello', None])
    qh = some(rng, {
        'Content-Type': (.4, [b'text/plain']), 'Content-Length': (.15, [b'5']),
        'Transfer-Encoding': (.1, [b'chunked']),
        'Content-Range': (.2, [b'bytes 0-4/5']),
        'Accept-Language': (.25, None), 'Accept': (.2, None),
        'Accept-Charset': (.1, None), 'Accept-Encoding': (.15, None),
        'Expect': (.2, None), 'If-Match': (.2, [b'"a"']),
        'Upgrade': (.35, [b'h2c', b'websocket', b'foo/1', b'foo, bar']),
        'Connection': (.3, [b'upgrade', b'close']),
        'HTTP2-Settings': (.2, [b'AAMA']), 'Range': (.1, [b'bytes=0-1'])}, .2)
    rh = some(rng, {
        'Location': (.45, me), 'Content-Location': (.3, me),
        'Allow': (.4, [b'GET, HEAD', b'', b'POST', method.encode(),
                       b'PATCH, OPTIONS', b'get']),
        'Retry-After': (.2, [b'5', b'x']),
        'Upgrade': (.35, [b'h2c', b'websocket', b'foo/1', b'foo/2', b'', b'bar',
                          b'bar, foo']),
        'Connection': (.4, [b'upgrade', b'close', b'upgrade, close']),
        'Content-Type': (.5, [b'text/plain']), 'Link': (.2, None),
        'Transfer-Encoding': (.1, [b'chunked']), 'Via': (.1, [b'1.1 x']),
        'Content-Language': (.05, [b'en']), 'Cache-Control': (.2, [b'no-store',
                                                                   b'public']),
        'Alt-Svc': (.1, None), 'Accept-Patch': (.1, [b'text/plain']),
        'WWW-Authenticate': (.2, [b'Basic realm="x"']),
        'Last-Modified': (.1, [gen.imf(gen.BASE)]), 'ETag': (.1, [b'"a"'])}, .2)
    st = rng.choice(gen.STATUSES)
    rbody = rng.choice([b'', b'', b'hello', None])
    resps = [base_response(rng, st, rh, rbody, rng.choice(C11),
                           rng.choice(['OK', None]))]
    if rng.random() < .1:
        resps.insert(0, base_response(rng, rng.choice([100, 102, 103]), [],
                                      b'', rng.choice(C11)))
    return {'req': base_request(rng, method, qh, uri, rng.choice(C11), body,
                                rng.choice(['http', 'http', 'https', None])),
            'resps': resps}


def part(rng):
    hs = []
    if rng.random() < .8:
        hs.append(rng.choice([b'Content-Type', b'content-type']) +
                  b': text/plain')
    if rng.random() < .8:
        hs.append(rng.choice([b'Content-Range', b'CONTENT-range']) +
                  b': bytes 0-4/50')
    if rng.random() < .2:
        hs.append(b'X-Foo: bar')
    rng.shuffle(hs)
    return b'\r\n'.join([b'--xyz'] + hs + [b'', b'hello', b''])


def sharp_conditional(rng):
    kind = rng.randrange(3)
    tags = [b'"a"', b'W/"a"', b'"b"', b'W/"b"', b'"A"']
    dates = [gen.imf(gen.BASE + datetime.timedelta(seconds=s))
             for s in (0, 0, 1, -1)] + [gen.asctime(gen.BASE)]
    method = rng.choice(['GET', 'GET', 'HEAD', 'PUT'])
    if kind == 0:       # validators that matched
        st = rng.choice([200, 200, 204, 206, 304, 412])
        qh = some(rng, {
            'If-None-Match': (.6, tags + [b'*', b'"b", "a"', b'"c",W/"a"']),
            'If-Modified-Since': (.6, dates), 'If-Match': (.1, tags)}, 0)
        rh = some(rng, {'ETag': (.6, tags), 'Last-Modified': (.6, dates)}, 0)
    elif kind == 1:     # If-Range
        st = rng.choice([206, 206, 206, 200])
        qh = some(rng, {'If-Range': (.9, tags + dates),
                        'Range': (.9, [b'bytes=0-4'])}, 0)
        rh = some(rng, {'ETag': (.8, tags), 'Content-Language': (.2, [b'en']),
                        'Last-Modified': (.2, dates),
                        'Content-Location': (.2, [b'/x']),
                        'Content-Type': (.3, [b'text/plain']),
                        'Content-Range': (.9, [b'bytes 0-4/9'])}, 0)
    else:               # 304 and 412 for nothing
        st = rng.choice([304, 412, 412, 428])
        method = rng.choice(['GET', 'HEAD', 'PUT', 'OPTIONS', 'CONNECT',
                             'TRACE', 'POST'])
        qh = some(rng, {'If-Match': (.3, tags), 'If-None-Match': (.2, tags),
                        'If-Modified-Since': (.4, dates),
                        'If-Unmodified-Since': (.2, dates),
                        'If': (.1, [b'(["x"])']), 'If-Range': (.1, tags),
                        'Range': (.2, [b'bytes=0-4'])}, 0)
        rh = some(rng, {'ETag': (.3, tags), 'Last-Modified': (.3, dates),
                        'Content-Type': (.1, [b'text/plain'])}, 0)
    return {'req': base_request(rng, method, qh, '/'),
            'resps': [base_response(rng, st, rh, rng.choice([b'', b'hello']))]}


def conditional(rng):
    """C17"""
    if rng.random() < .3:
        return sharp_conditional(rng)
    tags = [b'"a"', b'"b"', b'W/"a"', b'W/"b"', b'"a\\"', b'"a", "b"', b'*',
            b'W/"a", "b"', b'"a', b'"', b'""']
    dates = [gen.imf(gen.BASE + datetime.timedelta(seconds=s))
             for s in (0, 0, 1, -1, 3600, -3600)] + \
        [gen.rfc850(gen.BASE), gen.asctime(gen.BASE), b'x',
         b'Tue, 05 Jan 2016 25:00:00 GMT', b'Tue, 35 Jan 2016 05:00:00 GMT']
    method = rng.choice(['GET', 'GET', 'GET', 'HEAD', 'PUT', 'DELETE', 'POST',
                         'OPTIONS', 'CONNECT', 'TRACE', 'PATCH'])
    st = rng.choice([200, 200, 200, 206, 206, 206, 304, 304, 412, 412, 416,
                     416, 204, 404, 201, 428])
    qh = some(rng, {
        'If-Match': tags, 'If-None-Match': tags, 'If-Modified-Since': dates,
        'If-Unmodified-Since': dates,
        'Range': (.5, [b'bytes=0-4', b'bytes=0-4, 6-9', b'bytes=-1', b'foo=1',
                       b'bytes=4-0', b'bytes=0-4,', b'BYTES=0-4', b'x']),
        'If-Range': (.3, tags + dates),
        'If': (.03, [b'x']), 'If-Schedule-Tag-Match': (.05, [b'"x"']),
        'Content-Length': (.1, [b'0'])}, rng.choice([.05, .15, .3]))
    body = rng.choice([b'', b'hello', b'hello', None])
    ctype = None
    rh = some(rng, {
        'ETag': (.5, tags), 'Last-Modified': (.5, dates), 'Date': (.8, dates),
        'Content-Range': (.45, [b'bytes 0-4/50', b'bytes */50', b'bytes 4-0/50',
                                b'bytes 0-4/*', b'bytes 0-50/50', b'foo x',
                                b'x', b'bytes 0-4/5']),
        'Content-Location': (.15, [b'/', b'/x']),
        'Content-Language': (.15, [b'en']),
        'Content-Encoding': (.1, [b'gzip', b'foo']), 'Expires': (.1, dates),
        'Vary': (.1, [b'*', b'Accept']), 'Accept-Ranges': (.1, None)}, .3)
    if rng.random() < .5:
        if rng.random() < .5:
            ctype = rng.choice([b'multipart/byteranges; boundary=xyz',
                                b'Multipart/BYTERANGES; boundary="xyz"',
                                b'multipart/byteranges',
                                b'multipart/byteranges; boundary=xxx'])
            if rng.random() < .85:
                body = b''.join(part(rng) for _ in range(
                    rng.randint(1, 3))) + b'--xyz--' + \
                    rng.choice([b'', b'\r\n', b'\r\nepilogue'])
        else:
            ctype = b'text/plain'
        rh.append((gen.recase('Content-Type', rng), ctype))
    return {'req': base_request(rng, method, qh, '/', rng.choice(C11), b'',
                                rng.choice(['http', 'https']))
            if rng.random() < .93 else None,
            'resps': [base_response(rng, st, rh, body, rng.choice(C11))]}


def caching(rng):
    """C18"""
    method = rng.choice(['GET', 'GET', 'GET', 'HEAD', 'POST', 'PUT', 'OPTIONS',
                         'PATCH', 'DELETE'])
    cc = [b'no-cache', b'no-store', b'max-age=0', b'max-age=60', b'max-age=3600',
          b'max-age=x', b'public', b'private', b'must-revalidate',
          b's-maxage=60', b'immutable', b'stale-if-error=5',
          b'stale-while-revalidate=5', b'no-cache="foo"', b'private="foo"',
          b'max-stale', b'max-stale=9', b'min-fresh=9', b'no-transform',
          b'only-if-cached', b'foo', b'Public', b'MAX-AGE=60', b's-maxage=0',
          b'no-cache=""', b'max-age="60"', b'private=foo', b'max-age',
          b'stale-if-error=0', b'max-stale=0', b'no-store=1', b'public=']

    def ccs(r):
        return gen.lst(r, cc, 1, r.choice([1, 2, 2, 3, 5]))
    if rng.random() < .4:
        # by the real clock
        off = rng.choice([0, 60, 3600, 5 * 3600, 10 * 3600, 86400, 86400 * 3])
        now = datetime.datetime.utcnow().replace(microsecond=0)
        f = rng.choice([gen.imf, gen.imf, gen.rfc850, gen.asctime])
        date = f(now - datetime.timedelta(seconds=off))
        if rng.random() < .3:
            date = near_now(rng)
        ages = [age_for(rng, off)] * 8 + [b'x', b'']
        expires = [f(now + datetime.timedelta(seconds=s))
                   for s in (-3600, 0, 3600)] + [b'0']
    else:
        deltas = [0, 0, 1, -1, 60, 61, 3600, -3600, 86400, 86401]
        date = gen.date(rng) if rng.random() < .3 else gen.imf(gen.BASE)
        ages = [b'0', b'60', b'61', b'59', b'3600', b'3601', b'86400', b'86401',
                b'100000', b'999999999', b'9' * 30, b'x', b'-1', b'060']
        expires = [f(gen.BASE + datetime.timedelta(seconds=s)) for s in deltas
                   for f in (gen.imf, gen.imf, gen.asctime, gen.rfc850)] + \
            [b'0', b'-1', lambda r: gen.date(r)]
    warns = [b'110 - "x"', b'111 - "x"', b'112 - "x"', b'113 - "x"',
             b'199 - "x"', b'214 - "x"', b'299 - "x"', b'099 - "x"',
             b'300 - "x"', b'110 - "x" "' + date + b'"', b'113 - "x", 110 - "x"',
             b'110 - "x" "' + gen.imf(gen.BASE) + b'"', b'100 - "x"',
             b'200 - "x"', b'x']
    qh = some(rng, {
        'Cache-Control': (.4, [ccs]), 'Pragma': (.25, None),
        'Warning': (.15, warns), 'Date': (.2, [date, lambda r: near_now(r)]),
        'Authorization': (.05, [b'Foo x=y']),
        'If-Modified-Since': (.1, [lambda r: gen.date(r)])}, .2)
    rh = some(rng, {
        'Cache-Control': (.6, [ccs]), 'Pragma': (.1, None),
        'Age': (.5, ages), 'Expires': (.4, expires), 'Date': (.85, [date]),
        'Last-Modified': (.2, expires), 'Warning': (.35, warns),
        'Vary': (.2, [b'Host', b'*', b'Accept, host', b'Accept', b'*, Accept']),
        'Connection': (.1, [b'close'])}, .2)
    st = rng.choice([200, 200, 200, 200, 404, 302, 201, 500, 304, 301, 206,
                     100, 103, 421, 410, 226])
    body = rng.choice([b'', b'hello', b'hello'])
    if rng.random() < .15:
        rh = [('Cache-Control', gen.lst(
            rng, [b'max-age=60', b'must-revalidate', b'immutable', b'private',
                  b's-maxage=60', b'max-age=0'], 1, 4)), ('Date', date)] + \
            some(rng, {'Age': (.8, [b'61', b'60', b'86401']),
                       'Expires': (.3, expires),
                       'Warning': (.5, [b'113 - "x"', b'110 - "x"',
                                        b'112 - "x"']),
                       'Content-Length': (.3, [b'5'])}, 0)
    return {'req': base_request(rng, method, qh, '/', rng.choice(C11), b'',
                                rng.choice(['http', 'https', None]))
            if rng.random() < .93 else None,
            'resps': [base_response(rng, st, rh, body, rng.choice(C11))]}


def b64(rng):
    raw = rng.choice([b'user:pass', b'user', b':', b'', b'a:b\x00', b'\x7f:',
                      b'caf\xc3\xa9:x', b'a:b:c', b'x\n:y', b'a:' + b'x' * 30,
                      b'us:er', b'\xff:\xfe'])
    v = base64.b64encode(raw)
    r = rng.random()
    if r < .12:
        v = v.rstrip(b'=')
    elif r < .2:
        v = v[:-1] + b'-'
    elif r < .25:
        v += b'='
    return v


def security(rng):
    """C19"""
    method = rng.choice(['GET', 'GET', 'POST', 'PUT', 'DELETE', 'OPTIONS'])
    st = rng.choice([200, 200, 401, 401, 401, 407, 403, 400, 302, 404])
    target = rng.choice(['/', '/', '/', '/?access_token=x', '/?access_token=',
                         '/?a=b&access_token=x#y', '/?access_token',
                         '/?ACCESS_TOKEN=x', '/?a=access_token=x',
                         '/?access%5Ftoken=x', 'http://example.com/?access_token=1',
                         '/?x&&access_token=x&', '/access_token=x', '*',
                         '/?access_token=x y', '/?a=b;access_token=x'])
    form = rng.random() < .3
    body = b''
    par = [b'realm="x"', b'realm=x', b'charset="UTF-8"', b'charset=utf-8',
           b'charset="x"', b'error="invalid_token"', b'error="invalid_request"',
           b'error="insufficient_scope"', b'error="foo"', b'error=invalid_token',
           b'error="\x01"', b'error="a\\\\b"',
           b'scope="a b"', b'scope=" a"', b'scope=""', b'scope="a\\"b"',
           b'error_description="x y"', b'error_description="\xff"',
           b'error_uri="http://x/"', b'error_uri="x y"', b'error_uri=""',
           b'foo="bar"', b'Realm="x"', b'ERROR="invalid_token"', b'realm = "x"']

    def challenge(r):
        s = r.choice([b'Basic', b'basic', b'Bearer', b'Bearer', b'BEARER',
                      b'Digest', b'Foo'])
        k = r.random()
        if k < .1:
            return s
        if k < .15:
            return s + b' abc=='
        return s + b' ' + b', '.join(r.choice(par)
                                     for _ in range(r.choice([1, 1, 2, 3])))

    def chs(r):
        return b', '.join(challenge(r) for _ in range(r.choice([1, 1, 1, 2])))

    def cred(r):
        s = r.choice([b'Basic', b'basic', b'Bearer', b'bearer', b'Digest',
                      b'Foo'])
        k = r.random()
        if k < .5:
            return s + b' ' + b64(r)
        return s + r.choice([b'', b' ', b' realm="x"', b' a=b, c=d',
                             b' mF_9.B5f-4.1JqM', b'  abcd'])
    qh = some(rng, {
        'Authorization': (.45, [cred]), 'Proxy-Authorization': (.2, [cred]),
        'Referer': (.25, [b'https://x/', b'http://x/', b'HTTPS://x/', b'/x',
                          b'about:blank', b'https:', b'httpsx://y/']),
        'Cache-Control': (.3, [b'no-store', b'no-store, max-age=0', b'No-Store',
                               b'no-cache', b'no-store=1']),
        'Upgrade': (.15, [b'h2c', b'h2', b'H2C', b'foo']),
        'Connection': (.2, [b'upgrade', b'upgrade, http2-settings']),
        'HTTP2-Settings': (.1, [b'AAMA', b'AA==', b'AA+/'])}, .2)
    if form:
        body = rng.choice([b'access_token=x', b'access_token=', b'a=b',
                           b'a=b&access_token=x', b'access_token', b'\xff=x',
                           b'access_token=x y', b'access%5ftoken=1', b''])
        qh.append(('Content-Type', rng.choice([
            b'application/x-www-form-urlencoded', b'text/plain',
            b'Application/X-WWW-Form-urlencoded', b'application/json',
            b'application/x-www-form-urlencoded; charset=utf-8'])))
        if rng.random() < .1:
            qh.append(('Content-Encoding', b'foo'))
    rh = some(rng, {
        'WWW-Authenticate': (.6, [chs]), 'Proxy-Authenticate': (.25, [chs]),
        'Strict-Transport-Security': (.35, None),
        'Cache-Control': (.2, [b'private', b'no-store', b'public']),
        'Upgrade': (.1, [b'h2c', b'h2', b'foo'])}, .2)
    return {'req': base_request(rng, method, qh, target, rng.choice(C11), body,
                                rng.choice(['http', 'http', 'https', None]))
            if rng.random() < .93 else None,
            'resps': [base_response(rng, st, rh, rng.choice([b'', b'hello']),
                                    rng.choice(C11))]}


def extensions(rng):
    """C20"""
    method = rng.choice(['GET', 'HEAD', 'POST', 'PUT', 'PATCH', 'PATCH',
                         'OPTIONS', 'DELETE'])
    st = rng.choice([200, 200, 200, 101, 204, 415, 202, 421, 103, 206, 201,
                     404])
    pref = [b'return=minimal', b'return=representation', b'respond-async',
            b'handling=strict', b'handling=lenient', b'wait=5', b'wait=x',
            b'foo', b'foo=bar', b'foo=""', b'Return=minimal', b'RESPOND-ASYNC',
            b'return="minimal"', b'foo; bar=baz', b'foo = bar', b'wait',
            b'return=foo', b'respond-async=x', b'handling', b'return=Minimal']

    def prefs(r):
        return gen.lst(r, pref, 1, 3)
    acc = [b'text/*', b'text/html', b'*/*', b'text/html;q=0.5', b'text/*;q=0.5',
           b'TEXT/plain', b'image/png;q=0.5', b'*/*;q=0.5', b'*/*;q=1',
           b'text/html;level=1', b'plain/text', b'te*t/html',
           b'*/html', b'text/ht*l', b'text/html;q=1.0']
    enc = [b'gzip', b'*', b'x-gzip', b'x-gzip;q=0.5', b'*;q=0.5', b'gzip;q=0.5',
           b'identity;q=0', b'x-compress;q=1', b'X-GZIP;q=1', b'br;q=1', b'x*']
    lang = [b'en', b'*', b'en;q=0.5', b'*;q=0.5', b'ru', b'*;q=1']
    mt = [b'text/plain', b'application/json', b'application/json-patch+json',
          b'application/merge-patch+json', b'application/xml',
          b'application/xml-patch+xml', b'text/html', b'Application/JSON',
          b'application/octet-stream', b'multipart/form-data; boundary=x',
          b'application/json; charset=utf-8', b'text/plain; a=b; A=c',
          b'message/news', b'plain/text', b'application/x-foo',
          b'text/json', b'application/text; a=b', b'application/json; CHARSET=x']

    def mts(r):
        return gen.lst(r, mt, 1, 2)
    qh = some(rng, {
        'Prefer': (.4, [prefs]), 'Accept': (.3, [lambda r: gen.lst(r, acc)]),
        'Accept-Encoding': (.25, [lambda r: gen.lst(r, enc)]),
        'Accept-Language': (.2, [lambda r: gen.lst(r, lang)]),
        'Accept-Charset': (.1, None), 'Content-Type': (.5, mt),
        'Upgrade': (.3, [b'h2c', b'h2c', b'h2', b'H2C', b'websocket',
                         b'h2c/1']),
        'HTTP2-Settings': (.25, [b'AAMA', b'AA==', b'AA+/', b'AA__', b'']),
        'Connection': (.35, [b'upgrade, http2-settings', b'upgrade', b'close',
                             b'HTTP2-Settings, Upgrade']),
        'Link': (.2, None), 'Forwarded': (.3, None)}, .2)
    rh = some(rng, {
        'Preference-Applied': (.35, [prefs]),
        'Vary': (.3, [b'Prefer', b'*', b'prefer, Accept', b'Accept']),
        'Content-Type': (.4, mt), 'Link': (.4, None),
        'Content-Disposition': (.4, None), 'Alt-Svc': (.35, None),
        'Allow': (.35, [b'GET, PATCH', b'GET', b'POST', b'PATCH, POST',
                        b'patch', b'']),
        'Accept-Patch': (.35, [mts]), 'Accept-Post': (.3, [mts]),
        'Upgrade': (.3, [b'h2c', b'h2', b'websocket', b'H2C', b'h2c/1']),
        'Connection': (.2, [b'upgrade'])}, .2)
    ua = rng.choice([b'curl/7.1', b'foo', b'curl/7.1 foo/2', b'Curl/7',
                     b'python-requests/2', b'libcurl', b'(x)', b''])
    if rng.random() < .3:
        qh.append(('User-Agent', ua))
    if rng.random() < .1:
        up = rng.choice(UP)
        st = rng.choice([101, 101, 101, 200])
        qh.append(('Upgrade', up.encode()))
        rh = [('Upgrade', up.encode()), ('Connection', b'Upgrade')]
    elif rng.random() < .1:
        qh = [('Prefer', prefs(rng) + b', ' + rng.choice(
            [b'handling=strict', b'handling=lenient, handling=strict',
             b'return=minimal, return=representation']))]
        method = 'GET'
    elif rng.random() < .1:
        method, st = 'OPTIONS', rng.choice([200, 200, 204, 103])
        rh = some(rng, {'Allow': (.9, [b'PATCH', b'GET, PATCH', b'GET']),
                        'Accept-Patch': (.4, [mts])}, 0)
    body = rng.choice([b'', b'hello'])
    req = base_request(rng, method, qh, rng.choice(['/', '/', '*']),
                       rng.choice(C11), body,
                       rng.choice(['http', 'http', 'https', None]))
    return {'req': req if rng.random() < .93 else None,
            'resps': [base_response(rng, st, rh, rng.choice([b'', b'hello']),
                                    rng.choice(C11))]}


RECIPES = {'C15': structure, 'C16': statuses, 'C17': conditional,
           'C18': caching, 'C19': security, 'C20': extensions}
