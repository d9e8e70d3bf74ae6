"""Generators of messages and exchanges: realistic, odd and hostile."""

import base64
import datetime
import gzip
import json
import os
import zlib

from vp import hp
from vp.ref import abnf

GRAMMAR = abnf.Grammar(open(os.path.join(os.path.dirname(__file__), 'ref',
                                         'http.abnf')).read())

# Header -> (grammar rule, 'q' request / 'r' response / 'b' both)
HEADERS = {
    'Accept': ('Accept', 'q'), 'Accept-Charset': ('Accept-Charset', 'q'),
    'Accept-Encoding': ('Accept-Encoding', 'b'),
    'Accept-Language': ('Accept-Language', 'q'),
    'Accept-Patch': ('Accept-Patch', 'r'), 'Accept-Post': ('Accept-Post', 'r'),
    'Accept-Ranges': ('Accept-Ranges', 'r'),
    'Access-Control-Allow-Credentials':
        ('Access-Control-Allow-Credentials', 'r'),
    'Access-Control-Allow-Headers': ('Access-Control-Allow-Headers', 'r'),
    'Access-Control-Allow-Methods': ('Access-Control-Allow-Methods', 'r'),
    'Access-Control-Allow-Origin': ('Access-Control-Allow-Origin', 'r'),
    'Access-Control-Expose-Headers': ('Access-Control-Expose-Headers', 'r'),
    'Access-Control-Max-Age': ('Access-Control-Max-Age', 'r'),
    'Access-Control-Request-Headers': ('Access-Control-Request-Headers', 'q'),
    'Access-Control-Request-Method': ('Access-Control-Request-Method', 'q'),
    'Age': ('Age', 'r'), 'Allow': ('Allow', 'r'), 'Alt-Svc': ('Alt-Svc', 'r'),
    'Alt-Used': ('Alt-Used', 'q'), 'Authorization': ('Authorization', 'q'),
    'Cache-Control': ('Cache-Control', 'b'), 'Connection': ('Connection', 'b'),
    'Content-Disposition': ('Content-Disposition', 'r'),
    'Content-Encoding': ('Content-Encoding', 'b'),
    'Content-Language': ('Content-Language', 'b'),
    'Content-Length': ('Content-Length', 'b'),
    'Content-Location': ('Content-Location', 'b'),
    'Content-Range': ('Content-Range', 'r'),
    'Content-Type': ('Content-Type', 'b'),
    'Cross-Origin-Resource-Policy': ('Cross-Origin-Resource-Policy', 'r'),
    'Date': ('Date', 'b'), 'ETag': ('ETag', 'r'), 'Expect': ('Expect', 'q'),
    'Expires': ('Expires', 'r'), 'Forwarded': ('Forwarded', 'q'),
    'HTTP2-Settings': ('HTTP2-Settings', 'q'), 'Host': ('Host', 'q'),
    'HTTPolice-Silence': ('HTTPolice-Silence', 'b'),
    'If-Match': ('If-Match', 'q'),
    'If-Modified-Since': ('If-Modified-Since', 'q'),
    'If-None-Match': ('If-None-Match', 'q'), 'If-Range': ('If-Range', 'q'),
    'If-Unmodified-Since': ('If-Unmodified-Since', 'q'),
    'Last-Modified': ('Last-Modified', 'r'), 'Link': ('Link', 'b'),
    'Location': ('Location', 'r'), 'Max-Forwards': ('Max-Forwards', 'q'),
    'Origin': ('Origin-Header', 'q'), 'Pragma': ('Pragma', 'b'),
    'Prefer': ('Prefer', 'q'), 'Preference-Applied': ('Preference-Applied',
                                                      'r'),
    'Proxy-Authenticate': ('Proxy-Authenticate', 'r'),
    'Proxy-Authorization': ('Proxy-Authorization', 'q'),
    'Range': ('Range', 'q'), 'Referer': ('Referer', 'q'),
    'Retry-After': ('Retry-After', 'r'), 'Server': ('Server', 'r'),
    'Strict-Transport-Security': ('Strict-Transport-Security', 'r'),
    'TE': ('TE', 'q'), 'Trailer': ('Trailer', 'b'),
    'Transfer-Encoding': ('Transfer-Encoding', 'b'),
    'Upgrade': ('Upgrade', 'b'), 'User-Agent': ('User-Agent', 'q'),
    'Vary': ('Vary', 'r'), 'Via': ('Via', 'b'),
    'WWW-Authenticate': ('WWW-Authenticate', 'r'), 'Warning': ('Warning', 'b'),
    'X-Content-Type-Options': ('X-Content-Type-Options', 'r'),
}
REQUEST_HEADERS = sorted(k for k, v in HEADERS.items() if v[1] in 'qb')
RESPONSE_HEADERS = sorted(k for k, v in HEADERS.items() if v[1] in 'rb')
OTHER_HEADERS = ['X-Foo', 'X-Bar', 'Foo', 'Cookie', 'Set-Cookie', 'Set-Cookie2',
                 'Keep-Alive', 'From', 'DNT', 'Content-MD5', 'If', 'Overwrite',
                 'MIME-Version', 'Proxy-Connection', 'Upgrade-Insecure-Requests',
                 'X-Frame-Options', 'If-Schedule-Tag-Match', 'Cookie2',
                 'Content-Version', 'Lock-Token', 'Depth', 'Destination']

METHODS = ['GET', 'GET', 'GET', 'HEAD', 'POST', 'POST', 'PUT', 'DELETE',
           'CONNECT', 'OPTIONS', 'TRACE', 'PATCH', 'PROPFIND', 'MKCOL',
           'SEARCH', 'get', 'Post', 'FOO', 'LINK', 'PRI']
STATUSES = [100, 101, 102, 103, 200, 200, 200, 201, 202, 203, 204, 205, 206,
            207, 226, 300, 301, 302, 303, 304, 305, 306, 307, 308, 400, 401,
            402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414,
            415, 416, 417, 421, 425, 426, 428, 429, 431, 451, 500, 501, 502,
            503, 504, 505, 506, 507, 511, 599, 299, 499, 600, 999, 99, 0]
VERSIONS = ['HTTP/1.1', 'HTTP/1.1', 'HTTP/1.1', 'HTTP/1.0', 'HTTP/2', None,
            'HTTP/0.9', 'HTTP/3.0']
TARGETS = ['/', '/a/b?c=d', '/?access_token=abc', '*', 'http://example.com/x',
           'https://example.com/', 'example.com:443', '/a b', '', '//x/y',
           '/%zz', 'HTTP://EXAMPLE.com', '/x?q=%20', '/\u044f', 'foo:bar',
           '[::1]:80', 'http://[::1]/', '/[', 'http://[v1.x]/']
BASE = datetime.datetime(2016, 1, 5, 12, 0, 0)
DAYS = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']
DAYS_L = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday',
          'Sunday']
MONTHS = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct',
          'Nov', 'Dec']


def imf(dt):
    return ('%s, %02d %s %04d %02d:%02d:%02d GMT' % (
        DAYS[dt.weekday()], dt.day, MONTHS[dt.month - 1], dt.year,
        dt.hour, dt.minute, dt.second)).encode()


def rfc850(dt):
    return ('%s, %02d-%s-%02d %02d:%02d:%02d GMT' % (
        DAYS_L[dt.weekday()], dt.day, MONTHS[dt.month - 1], dt.year % 100,
        dt.hour, dt.minute, dt.second)).encode()


def asctime(dt):
    return ('%s %s %2d %02d:%02d:%02d %04d' % (
        DAYS[dt.weekday()], MONTHS[dt.month - 1], dt.day,
        dt.hour, dt.minute, dt.second, dt.year)).encode()


def date(rng, spread=86400 * 3):
    r = rng.random()
    if r < .55:
        dt = BASE + datetime.timedelta(
            seconds=rng.choice([0, 0, 0, 1, -1, 60, -60, 3600, -3600, 86400,
                                -86400, rng.randint(-spread, spread)]))
    elif r < .8:
        dt = BASE + datetime.timedelta(seconds=rng.randint(-10**9, 10**8))
    elif r < .9:
        # years away in the future, so that the real clock does not matter
        dt = datetime.datetime(rng.randint(2090, 9999), 3, 4, 5, 6, 7)
    else:
        dt = datetime.datetime(rng.choice([1, 100, 1900, 1970, 1999, 2000]),
                               rng.randint(1, 12), rng.randint(1, 28), 1, 2, 3)
    f = rng.random()
    if f < .75:
        return imf(dt)
    if f < .84 and 1900 <= dt.year < 2070:
        return rfc850(dt)
    if f < .9:
        return asctime(dt)
    s = imf(dt)
    if f < .94:
        return rng.choice(DAYS).encode() + s[3:]
    if f < .97:
        return s.replace(b' 2016 ', b' 16 ')
    return s[:5] + rng.choice([b'31', b'30', b'00', b'99', b'29']) + s[7:]


def q(rng):
    return rng.choice([b'', b'', b'', b';q=0.5', b'; q=1', b';q=0', b';q=0.001',
                       b' ; q=0.8', b';Q=0.3', b';q=1.000', b';q=2', b';q='])


def lst(rng, items, lo=1, hi=4, seps=(b', ', b', ', b', ', b',', b' ,', b',\t',
                                      b', , ', b',,')):
    n = rng.randint(lo, hi)
    return rng.choice(seps).join(
        (items(rng) if callable(items) else rng.choice(items))
        for _ in range(n))


TOKENS = [b'foo', b'bar', b'Foo', b'x', b'a-b', b'x.y', b'1', b'*', b'q',
          b'no-cache', b'trailers', b'close', b'max-age']
QSTR = [b'"foo"', b'""', b'"a\\"b"', b'"a, b"', b'"a; b"', b'"\\x"',
        b'"caf\xc3\xa9"', b'"a\\\\"', b'"x y"', b'"%20"', b'"unclosed']
NUM = [b'0', b'1', b'60', b'3600', b'86400', b'86401', b'999999999',
       b'100000000000', b'007', b'-1', b'1.5', b'x', b'', b'9' * 30]
NAMES = [b'Accept', b'accept-encoding', b'Host', b'Prefer', b'Foo', b'Cookie',
         b'*', b'If-None-Match', b'X-Foo', b'ETag', b'Content-Length',
         b'Set-Cookie', b'Location', b'TE', b'Keep-Alive', b'Expires']
ETAGS = [b'"a"', b'"b"', b'W/"a"', b'W/"b"', b'""', b'"a\\"', b'w/"a"', b'a',
         b'"x,y"', b'"\xff"']
MTYPES = [b'text/plain', b'text/html', b'application/json',
          b'application/xml', b'application/x-www-form-urlencoded',
          b'multipart/form-data; boundary=xyz', b'multipart/byteranges; boundary=xyz',
          b'application/problem+json', b'image/svg+xml', b'Text/HTML; Charset="utf-8"',
          b'application/json-patch+json', b'application/merge-patch+json',
          b'text/plain; charset=utf-8', b'text/plain;charset=koi8-r',
          b'application/json; charset=utf-16', b'text/xml; charset=foo',
          b'plain/text', b'text/json', b'application/x-foo',
          b'text/plain; a=b; A=c', b'text/', b'multipart/mixed',
          b'application/octet-stream', b'message/news', b'text/plain;charset=hex',
          b'text/plain;charset=""', b'application/json; charset=utf-8',
          b'text/plain; charset=base64', b'application/vnd.api+json']
URIS = [b'/', b'/a/b?c=d', b'http://example.com/x', b'https://example.com/',
        b'http://example.com/', b'//example.com/', b'foo', b'?x', b'#frag',
        b'http://example.com/x#frag', b'', b'http://[::1]/', b'http://[v1.x]/',
        b'http://[::1', b'http://user@host:80/p', b'mailto:a@b', b'/a b',
        b'http://example.com/?access_token=1', b'http://[fe80::1%25eth0]/',
        b'.', b'..', b'http://x:y/', b'\xff', b'http:', b'HTTP://Example.com/',
        b'http://[v1.x', b'http://]/', b'//[/', b'http://[::1]x/',
        b'http://\xe2\x84\x80/', b'http:////[x']
SCHEMES = [b'Basic', b'basic', b'Bearer', b'BEARER', b'Digest', b'Foo',
           b'Negotiate']
CREDS = [b'', b' ', b' dXNlcjpwYXNz', b' dXNlcg==', b' ===', b' abc',
         b' AAE6', b' realm=foo', b' realm="foo"', b' foo="bar", baz=qux',
         b' Zm9vOmJhcgo=', b' a', b' mF_9.B5f-4.1JqM', b' realm=""',
         b' realm="foo", charset="UTF-8"', b' charset=latin1, realm="x"',
         b' realm="x", error="invalid_token"', b' realm="a", realm="b"',
         b' error="insufficient_scope", scope="a b"', b' scope=" a"',
         b' error="invalid_request", error_description="\xff"',
         b' error_uri="http://x/", error="foo"', b' error_uri=": "',
         b' realm = "x"', b' realm="x" , foo = bar']
CC = [b'no-cache', b'no-store', b'max-age=0', b'max-age=3600', b'max-age',
      b'max-age="60"', b'max-stale', b'max-stale=5', b'min-fresh=5', b'public',
      b'private', b'private="Set-Cookie"', b'private=foo', b'no-cache="a, b"',
      b'no-cache=foo', b'must-revalidate', b'proxy-revalidate', b's-maxage=10',
      b'only-if-cached', b'no-transform', b'stale-if-error=5', b'foo', b'foo=bar',
      b'stale-while-revalidate=9', b'immutable', b'immutable=1', b'No-Cache',
      b'MAX-AGE=5', b'max-age=x', b'min-fresh', b'public="x"', b'no-cache=""',
      b'no-cache="(bad)"', b'max-age=99999999999999999999', b's-maxage']
UPGRADES = [b'h2c', b'h2', b'websocket', b'TLS/1.0', b'HTTP/2.0', b'foo', b'WebSocket',
            b'H2C', b'h2c/1']
PREFS = [b'return=minimal', b'return=representation', b'return="minimal"',
         b'wait=10', b'wait=x', b'respond-async', b'respond-async=1',
         b'handling=strict', b'handling=lenient', b'handling=foo', b'return',
         b'foo; bar=1', b'foo=""', b'foo', b'Return=Minimal', b'wait',
         b'return=minimal; foo="some parameter"', b'depth-noroot']
LINKS = [b'</a>; rel=next', b'<http://x/>; rel="next prev"', b'</a>',
         b'<>; rel=""', b'</a>; rel=next; rel=prev', b'</a>; rev=foo; rel=x',
         b'</a>; rel=blocked-by', b'</a>; rel="blocked-by foo"', b'</a>; rel',
         b'</a>; title=foo; rel=x', b'</a>; title="foo"; rel=x',
         b'</a>; hreflang=en; rel=x', b'</a>; hreflang="en"; rel=x',
         b"</a>; title*=UTF-8''x%20y; rel=x", b"</a>; title*=UTF-8''%ff; rel=x",
         b"</a>; title*=foo; rel=x", b'</a>; type="text/html"; rel=x',
         b'</a>; type="plain/text"; rel=x', b'</a>; type=foo; rel=x',
         b'</a>; anchor="#x"; rel=x', b'</a>; rel="http://x/ next"',
         b'</a>; rel=Next', b'</a>; rel="Next"', b'<a b>; rel=x', b'</a>;',
         b'</a>; anchor=" "; rel=x', b'</a>; media="x"; media="y"; rel=x',
         b'</a> ; rel = x', b'</a>; foo', b'</a>; rev; rel=x',
         b'</a>; type; title; hreflang; rel=x', b'</a>; title*; rel=x',
         b'</a>; REL=next', b"</a>; title*=iso-8859-1'en'%A3; rel=x"]
CDS = [b'attachment', b'inline', b'attachment; filename=foo.txt',
       b'attachment; filename="foo.txt"', b'attachment; filename="a%20b"',
       b'attachment; filename="a\\"b"', b'attachment; filename="\xe9"',
       b"attachment; filename*=UTF-8''x%20y",
       b"attachment; filename=x; filename*=UTF-8''x",
       b"attachment; filename*=UTF-8''x; filename=x",
       b"attachment; filename*=UTF-8'en'%ff; filename=x",
       b"attachment; filename*=iso-8859-1''%e9; filename=x",
       b'attachment; filename=x; filename=y', b'Attachment; FileName=x',
       b'foo; bar=baz', b'attachment; filename', b'attachment;',
       b'attachment; foo=1; Foo=2', b'attachment ; filename = "x"',
       b'attachment; filename="a\\\\b"', b'attachment; filename=a%zz']
STS = [b'max-age=0', b'max-age=31536000', b'max-age=1; includeSubDomains',
       b'includeSubDomains; max-age=0', b'includeSubDomains', b'max-age',
       b'max-age="100"', b'max-age=x', b'max-age=1; max-age=2',
       b'includeSubDomains=1; max-age=5', b'', b';', b'max-age=1;;foo=bar;foo',
       b'MAX-AGE=0; INCLUDESUBDOMAINS', b'max-age = 5', b'max-age=1, foo',
       b'max-age=1; preload']
ALTS = [b'clear', b'h2=":443"', b'h2="example.com:443"; ma=60',
        b'h2=":443"; persist=1', b'h2=":443"; persist=0', b'h2="foo"',
        b'w%3Dx=":1"', b'w%3dx=":1"', b'%68=":1"', b'h2=443', b'Clear',
        b'h2=":443"; ma=60, h3=":443"', b'h2=":443"; ma="60"; foo=bar',
        b'h2=":443"; ma=60; ma=70', b'h2=""', b'h2=":443"; ma=x',
        b'h2="[::1]:443"', b'h2=":443"; ma', b'%zz=":1"', b'clear, h2=":1"']
FWDS = [b'for=192.0.2.60', b'for="[2001:db8::1]:4711"', b'for=unknown',
        b'proto=http', b'proto=HTTPS', b'host=example.com', b'by=_gazonk',
        b'for=_x; proto=http', b'for=1.2.3.4;proto=http;by=203.0.113.43',
        b'for=', b'for="x y"', b'foo=bar', b'for=1.2.3.4;for=5.6.7.8', b';',
        b'for="1.2.3.4:80"', b'For="unknown:_x"', b'for=1.2.3.4; by=_a',
        b'for=999.1.1.1', b'proto="http:"', b'host="a b"', b'host=""',
        b'for="1.2.3.4:123456"', b'for=1.2.3.4;', b'for="[::1]"']
WARNS = [b'110 - "Stale"', b'111 foo "x"', b'112 example.com:80 "x"',
         b'113 - "Heuristic"', b'199 - "misc"', b'214 - "transformed"',
         b'299 - "x"', b'300 - "x"', b'099 - "x"', b'999 - "x"', b'11 - "x"',
         b'110 - "x" "Tue, 05 Jan 2016 12:00:00 GMT"',
         b'110 - "x" "Tue, 05 Jan 2016 12:00:01 GMT"',
         b'214 - "x" "Tuesday, 05-Jan-16 12:00:00 GMT"', b'110 "x"',
         b'110 -  "x"', b'110 [::1]:80 "x, y"', b'110 "" "x"',
         b'299 - "x" "Tue, 35 Jan 2016 12:00:00 GMT"']
UAS = [b'Mozilla/5.0 (X11; Linux x86_64)', b'curl/7.35.0', b'python-requests/2.2.1',
       b'foo', b'foo/1 bar/2 (baz)', b'libcurl/7.1 OpenSSL/1.0', b'(foo)',
       b'Python-urllib/3.4', b'foo  bar', b'a (b (c) d) e', b'foo/1 (', b'',
       b'a (\\x)', b'a (\\() b', b'Java/1.8', b'curl/7 libcurl/7', b'Foo/',
       b'a (((((((((((((((())))))))))))))))']
VIAS = [b'1.1 foo', b'HTTP/1.1 example.com:80 (Apache)', b'1.0 fred, 1.1 p.example.net',
        b'1.1 [::1]:80', b'1.1  foo', b'1.1', b'FOO/1 - (x (y) z)', b'1.1 foo (a, b)',
        b'1.1 foo:', b'1.1 foo(bar)']
CRS = [b'bytes 0-10/100', b'bytes */100', b'bytes 0-10/*', b'bytes 10-5/100',
       b'bytes 0-100/100', b'foo 1-2/3', b'bytes 0-10', b'bytes=0-10/100',
       b'bytes 0-99/100', b'BYTES 0-1/2', b'foo ', b'bytes  0-1/2', b'items \x01']
RANGES = [b'bytes=0-10', b'bytes=0-', b'bytes=-5', b'bytes=0-1,5-6',
          b'bytes=10-5', b'foo=1-2', b'bytes=', b'bytes=0-1, ,2-3', b'bytes 0-1',
          b'BYTES=0-1', b'bytes=x', b'bytes=0-0,-1', b'items=x y']
TES = [b'chunked', b'gzip, chunked', b'gzip', b'deflate', b'identity', b'chunked, chunked',
       b'foo', b'Chunked', b'foo;a=b', b'gzip;a=b', b'x-gzip', b'foo;a="b, c"',
       b'foo ; a = b', b'identity, chunked', b'chunked, gzip', b'foo, chunked']
TES2 = [b'trailers', b'', b'gzip;q=0.5', b'chunked', b'deflate', b'Trailers',
        b'foo;a=b;q=1', b'trailers, deflate;q=0.5', b'gzip;q=5', b'trailers;q=1']
ENCS = [b'gzip', b'deflate', b'br', b'identity', b'*', b'x-gzip', b'x-compress',
        b'foo', b'GZIP', b'compress', b'zstd']
CONNS = [b'close', b'keep-alive', b'Upgrade', b'upgrade', b'TE', b'HTTP2-Settings',
         b'Close', b'Foo', b'Cache-Control', b'Host', b'Date', b'te', b'http2-settings',
         b'Trailer', b'Transfer-Encoding', b'Age']


def pieces(v, sep):
    """Split at a separator, but not inside quotes."""
    r = [b'']
    inside = False
    for c in v:
        c = bytes([c])
        if c == b'"':
            inside = not inside
        if c == sep and not inside:
            r.append(b'')
        else:
            r[-1] += c
    return r


def reshuffle(v, rng, donor=None):
    """Repeat, drop, reorder or borrow list elements or parameters."""
    sep = rng.choice([b';', b';', b',', b','])
    ps = pieces(v, sep)
    op = rng.randrange(5)
    if op == 0:
        ps.insert(rng.randint(0, len(ps)), rng.choice(ps))
    elif op == 1:
        ps.append(rng.choice(ps))
    elif op == 2:
        head = ps[:1] if sep == b';' else []
        rest = ps[len(head):]
        rng.shuffle(rest)
        ps = head + rest
    elif op == 3 and len(ps) > 1:
        del ps[rng.randrange(len(ps))]
    elif donor:
        more = pieces(donor, sep)
        ps.insert(rng.randint(min(1, len(ps)), len(ps)), rng.choice(more))
    return sep.join(ps).strip(b' \t')


def nice_value(name, rng):
    """A plausible (valid or invalid) value for the header."""
    v = _nice_value(name, rng)
    while rng.random() < .15:
        v = reshuffle(v, rng, _nice_value(name, rng))
    return v


def _nice_value(name, rng):
    c = rng.choice
    if name in ['Date', 'Last-Modified', 'If-Modified-Since',
                'If-Unmodified-Since']:
        return date(rng)
    if name == 'Expires':
        return c([date(rng)] * 6 + [b'0', b'-1'])
    if name == 'If-Range':
        return c([date(rng), c(ETAGS), c(ETAGS)])
    if name == 'Retry-After':
        return c([date(rng), c(NUM)])
    if name in ['Age', 'Max-Forwards', 'Content-Length',
                'Access-Control-Max-Age']:
        return c(NUM)
    if name in ['ETag']:
        return c(ETAGS)
    if name in ['If-Match', 'If-None-Match']:
        return c([b'*', lst(rng, ETAGS), lst(rng, ETAGS), lst(rng, ETAGS, 1, 1)])
    if name in ['Vary', 'Trailer', 'Access-Control-Expose-Headers',
                'Access-Control-Allow-Headers',
                'Access-Control-Request-Headers']:
        return lst(rng, NAMES)
    if name in ['Allow', 'Access-Control-Allow-Methods',
                'Access-Control-Request-Method']:
        return lst(rng, [m.encode() for m in METHODS], 0, 5)
    if name == 'Accept':
        return lst(rng, lambda r: c([b'*/*', b'text/*', b'text/html',
                                     b'text/plain', b'application/json',
                                     b'text/html;level=1', b'plain/text',
                                     b'*/html', b'text']) + q(r) +
                   c([b'', b'', b'', b';ext=1', b';ext', b';a="x, y"']))
    if name == 'Accept-Charset':
        return lst(rng, lambda r: c([b'utf-8', b'*', b'iso-8859-1', b'foo']) +
                   q(r))
    if name == 'Accept-Encoding':
        return lst(rng, lambda r: c(ENCS) + q(r), 0, 4)
    if name == 'Accept-Language':
        return lst(rng, lambda r: c([b'en', b'en-US', b'*', b'ru', b'x-foo',
                                     b'en-*', b'i-klingon', b'e',
                                     b'abcdefghi']) + q(r))
    if name == 'Content-Language':
        return lst(rng, [b'en', b'en-US', b'i-klingon', b'zh-Hant', b'e',
                         b'x-foo', b'de-DE-1996', b'de-x'], 1, 2)
    if name == 'Content-Type':
        return c(MTYPES)
    if name in ['Accept-Patch', 'Accept-Post']:
        return lst(rng, MTYPES + [b'*/*', b'text/*'], 1, 3)
    if name == 'Content-Encoding':
        return lst(rng, ENCS, 1, 2)
    if name in ['Location', 'Content-Location', 'Referer']:
        return c(URIS)
    if name in ['Origin', 'Access-Control-Allow-Origin']:
        return c([b'null', b'*', b'http://example.com', b'https://x:80',
                  b'http://x/', b'Null', b'', b'http://[::1]:80'])
    if name in ['Authorization', 'Proxy-Authorization']:
        return c(SCHEMES) + c(CREDS)
    if name in ['WWW-Authenticate', 'Proxy-Authenticate']:
        return lst(rng, lambda r: c(SCHEMES) + c(CREDS), 1, 2)
    if name == 'Cache-Control':
        return lst(rng, CC, 1, 5)
    if name == 'Pragma':
        return lst(rng, [b'no-cache', b'No-Cache', b'foo', b'foo=bar',
                         b'no-cache=1', b'foo="x"'], 1, 2)
    if name == 'Upgrade':
        return lst(rng, UPGRADES, 1, 2)
    if name == 'Connection':
        return lst(rng, CONNS, 1, 3)
    if name == 'Prefer':
        return lst(rng, PREFS, 1, 3)
    if name == 'Preference-Applied':
        return lst(rng, PREFS, 1, 2)
    if name == 'Link':
        return lst(rng, LINKS, 1, 2)
    if name == 'Content-Disposition':
        return c(CDS)
    if name == 'Strict-Transport-Security':
        return c(STS)
    if name == 'Alt-Svc':
        return c(ALTS)
    if name == 'Forwarded':
        return lst(rng, FWDS, 1, 2)
    if name == 'Warning':
        return lst(rng, WARNS, 1, 2)
    if name in ['User-Agent', 'Server']:
        return c(UAS)
    if name == 'Via':
        return lst(rng, VIAS, 1, 2)
    if name == 'Content-Range':
        return c(CRS)
    if name == 'Range':
        return c(RANGES)
    if name == 'Accept-Ranges':
        return c([b'bytes', b'none', b'bytes, foo', b'None', b'none, bytes', b''])
    if name == 'Transfer-Encoding':
        return c(TES)
    if name == 'TE':
        return c(TES2)
    if name in ['Host', 'Alt-Used']:
        return c([b'example.com', b'example.com:80', b'[::1]', b'[::1]:443', b'',
                  b'a b', b'user@host', b'EXAMPLE.com', b'[v1.x]', b'x:y',
                  b'example.com', b'example.com', b'1.2.3.4', b'[::1'])
    if name == 'Expect':
        return c([b'100-continue', b'100-Continue', b'foo', b'100-continue'])
    if name == 'HTTP2-Settings':
        return c([b'AAMAAABkAAQAAP__', b'AAMA+/', b'AAMA==', b'x y', b''])
    if name == 'HTTPolice-Silence':
        return lst(rng, [b'1000', b'1070', b'1031', b'1110 resp', b'1277',
                         b'1000 resp', b'foo', b'1070  resp', b'99999'], 0, 3)
    if name in ['X-Content-Type-Options']:
        return c([b'nosniff', b'NoSniff', b'x'])
    if name == 'Cross-Origin-Resource-Policy':
        return c([b'same-site', b'same-origin', b'Same-Site'])
    if name == 'Access-Control-Allow-Credentials':
        return c([b'true', b'True', b'false'])
    return c(TOKENS + QSTR + NUM)


JUNK = bytes(range(256))
SPECIALS = b'"\\,;=()<>/ \t\x00\x7f\x80\xff\r\n%\'*:@[]{}?-.'


def mutate(s, rng, n=None):
    s = bytearray(s)
    for _ in range(n or rng.choice([1, 1, 1, 2, 3])):
        op = rng.randrange(6)
        i = rng.randrange(len(s) + 1)
        if op == 0:
            s[i:i] = bytes([rng.choice(SPECIALS)])
        elif op == 1:
            del s[i:i + 1]
        elif op == 2 and s:
            s[i % len(s)] = rng.choice(JUNK)
        elif op == 3:
            j = rng.randrange(len(s) + 1)
            s[i:i] = s[min(i, j):max(i, j)]
        elif op == 4:
            s[i:i] = rng.choice([b'"', b', ', b'; ', b'=', b'(', b')', b'\\',
                                 b'0', b'9' * 5, b'a', b' ', b'\t'])
        else:
            j = min(len(s), i + rng.randint(0, 4))
            del s[i:j]
    return bytes(s)


def clean_value(v):
    """What can be one field value: no line breaks, no outer white space."""
    return v.replace(b'\r', b'').replace(b'\n', b'').strip(b' \t')


def value(name, rng, wild=.25):
    r = rng.random()
    rule = HEADERS.get(name, (None,))[0]
    if r < 1 - wild or rule is None:
        v = nice_value(name, rng)
        if rng.random() < wild / 2:
            v = mutate(v, rng)
    elif r < 1 - wild * .4:
        v = GRAMMAR.gen(rule, rng)
    elif r < 1 - wild * .1:
        v = mutate(GRAMMAR.gen(rule, rng), rng)
    else:
        v = bytes(rng.choice(JUNK) for _ in range(rng.randint(0, 12)))
    return clean_value(v)


def recase(name, rng):
    r = rng.random()
    if r < .85:
        return name
    return rng.choice([name.lower(), name.upper(),
                       ''.join(rng.choice([c.lower(), c.upper()])
                               for c in name)])


# -- bodies

def some_json(rng, depth=0):
    r = rng.random()
    if depth > 3 or r < .5:
        return rng.choice([1, -2.5, True, None, '', 'x', 'caf\u00e9',
                           '\ud83d\ude00', 'a' * 20, 10**20, '\x00', '<&>"'])
    if r < .75:
        return [some_json(rng, depth + 1) for _ in range(rng.randint(0, 3))]
    return {rng.choice('abcd'): some_json(rng, depth + 1)
            for _ in range(rng.randint(0, 3))}


XMLS = [b'<a/>', b'<?xml version="1.0" encoding="utf-8"?><a b="c">d</a>', b'<a>',
        b'<!DOCTYPE a [<!ENTITY x "y">]><a>&x;</a>', b'', b'<a>&x;</a>',
        b'<?xml version="1.0" encoding="foo"?><a/>', b'\xff\xfe<\x00a\x00/\x00>\x00',
        b'<?xml version="1.0" encoding="utf-16"?><a/>', b'<a>\xff</a>',
        b'<!DOCTYPE a SYSTEM "http://x/y.dtd"><a/>',
        b'<!DOCTYPE a [<!ENTITY x SYSTEM "file:///etc/passwd">]><a>&x;</a>',
        b'<?xml version="1.0" encoding="shift_jis"?><a/>',
        b'<?xml version="1.0" encoding="gb2312"?><a/>',
        b'<?xml version="1.0" encoding="hex"?><a/>',
        b'<?xml version="1.0" encoding="utf-7"?><a/>',
        b'<?xml version="1.0" encoding="idna"?><a/>',
        b'<!DOCTYPE a [<!ATTLIST a b CDATA "c">]><a/>',
        b'<!DOCTYPE a [<!NOTATION n SYSTEM "x">'
        b'<!ENTITY u SYSTEM "x" NDATA n>]><a/>',
        b'<!DOCTYPE a [<!ENTITY % p SYSTEM "x">%p;]><a/>']
PART = (b'--xyz\r\nContent-Type: text/plain\r\nContent-Range: bytes 0-1/10\r\n'
        b'\r\nab\r\n')
MULTIS = [PART + PART + b'--xyz--\r\n', b'--xyz\r\n\r\nfoo\r\n--xyz--', b'foo', b'',
          PART.replace(b'Content-Range: bytes 0-1/10\r\n', b'') + b'--xyz--',
          b'--xyz--', b'--xyz\r\nContent-Type: multipart/mixed; boundary=q\r\n\r\n'
          b'--q\r\n\r\nx\r\n--q--\r\n--xyz--',
          PART.replace(b'text/plain', b'\xff') + b'--xyz--',
          b'--xyz\r\nContent-Transfer-Encoding: base64\r\n\r\n!!!\r\n--xyz--',
          PART]
FORMS = [b'a=b&c=d', b'access_token=x', b'a=b c', b'a=%zz', b'\xff=1', b'',
         b'a&b&&=', b'a=b;c=d', b'+a+=%20*-._']


def body(rng, ctype=None):
    r = rng.random()
    ctype = (ctype or b'').lower()
    if r < .65 and b'json' in ctype:
        try:
            b = json.dumps(some_json(rng), ensure_ascii=rng.random() < .5) \
                .encode(rng.choice(['utf-8', 'utf-8', 'utf-16']),
                        'surrogatepass')
        except UnicodeError:
            b = b'[]'
        if rng.random() < .2:
            b = mutate(b, rng)
        return b
    if r < .65 and b'xml' in ctype:
        return rng.choice(XMLS)
    if r < .65 and b'multipart' in ctype:
        return rng.choice(MULTIS)
    if r < .65 and b'urlencoded' in ctype:
        return rng.choice(FORMS)
    if r < .8:
        return rng.choice([b'hello', b'caf\xc3\xa9', b'caf\xe9', b'x' * 1500,
                           b'\x00\x01', b'<html>', b'{"a":1}', b'NaN',
                           b'"\\ud800"', b'\xef\xbb\xbf[]', b'\x1b[2J',
                           '\u2028\u202e'.encode('utf-8')])
    if r < .85:
        return bytes(rng.choice(JUNK) for _ in range(rng.randint(1, 60)))
    return rng.choice(XMLS + MULTIS + FORMS)


def brotli_compress(b):
    # A brotli stream of uncompressed meta-blocks, hand-made
    # (the installed package may only have a decoder).
    try:
        import brotli
        return brotli.compress(b)
    except (ImportError, AttributeError):   # pragma: no cover
        return None


def encode(b, coding, rng):
    coding = coding.lower()
    if coding in [b'gzip', b'x-gzip']:
        return gzip.compress(b, mtime=0)
    if coding == b'deflate':
        if rng.random() < .5:
            return zlib.compress(b)
        c = zlib.compressobj(wbits=-15)
        return c.compress(b) + c.flush()
    if coding == b'br':
        return brotli_compress(b)
    return b


def find(headers, name):
    for k, v in headers:
        if k.lower() == name.lower():
            return v
    return None


def message_tail(rng, headers, kind, wild):
    """body + trailers for a header list; may append headers."""
    r = rng.random()
    if r < .35:
        b = b''
    elif r < .42:
        b = None
    else:
        b = body(rng, find(headers, 'Content-Type'))
        ce = find(headers, 'Content-Encoding')
        if ce and rng.random() < .75:
            for coding in ce.split(b','):
                b = encode(b, coding.strip(), rng) or b
            if rng.random() < .2:
                b = mutate(b, rng)
    trailers = None
    if rng.random() < .12:
        names = [rng.choice(['X-Foo', 'ETag', 'Foo', 'Content-Length', 'Expires',
                             'Server', 'Link', 'Warning', 'Via', 'Server'])
                 for _ in range(rng.randint(1, 3))]
        trailers = [(n, value(n, rng, wild)) for n in names]
        if rng.random() < .7:
            headers.append(('Trailer', b', '.join(
                n.encode() for n in names)))
    if b and rng.random() < .5 and find(headers, 'Content-Length') is None:
        headers.append(('Content-Length', b'%d' % len(b)))
    return b, trailers


def headers_for(rng, pool, n, wild):
    hs = []
    for _ in range(n):
        if rng.random() < .9:
            name = rng.choice(pool)
        else:
            name = rng.choice(OTHER_HEADERS + list(HEADERS))
        hs.append((recase(name, rng), value(name, rng, wild)))
        if rng.random() < .06:
            hs.append((recase(name, rng), value(name, rng, wild)))
    return hs


def request(rng, wild=.25):
    method = rng.choice(METHODS)
    version = rng.choice(VERSIONS)
    hs = headers_for(rng, REQUEST_HEADERS, rng.choice([0, 1, 2, 3, 5, 9]), wild)
    if rng.random() < .75:
        hs.insert(0, ('Host', b'example.com'))
    if rng.random() < .6:
        hs.append(('User-Agent', rng.choice(UAS)))
    b, tr = message_tail(rng, hs, 'q', wild)
    if method in ('GET', 'HEAD', 'get') and rng.random() < .7:
        b = b''
    target = rng.choice(TARGETS) if rng.random() < .6 else '/'
    if rng.random() < .03:
        target = GRAMMAR.gen(rng.choice(['absolute-form', 'origin-form',
                                         'authority-form']),
                             rng).decode('iso-8859-1')
    if method == 'CONNECT' and rng.random() < .7:
        target = 'example.com:443'
    if rng.random() < wild * .05:
        method = mutate(method.encode(), rng).decode('iso-8859-1')
    return hp.req(method, target, hs, b, version,
                  rng.choice(['http', 'http', 'https', None, 'foo']), tr)


def response(rng, wild=.25):
    status = rng.choice(STATUSES)
    hs = headers_for(rng, RESPONSE_HEADERS, rng.choice([0, 1, 2, 3, 5, 9]),
                     wild)
    if rng.random() < .6:
        hs.append(('Date', imf(BASE)))
    b, tr = message_tail(rng, hs, 'r', wild)
    if status in (100, 101, 204, 304) and rng.random() < .7:
        b = b''
    reason = rng.choice(['OK', '', None, 'Not Found', 'caf\xe9', 'a\x00b'])
    return hp.resp(status, hs, b, rng.choice(VERSIONS), reason, tr)


def exchange(rng, wild=.25):
    r = None if rng.random() < .05 else request(rng, wild)
    n = rng.choice([0, 1, 1, 1, 1, 1, 1, 2, 2, 3])
    return {'req': r, 'resps': [response(rng, wild) for _ in range(n)]}


def basic_auth(user):
    return b'Basic ' + base64.b64encode(user)
