"""Exchanges that follow the standards, built up feature by feature.

What is sent is right by construction: every scenario (one function each) adds
what the RFCs require of it, and features that are free to combine are added on
top.  The spelling (letter case, whitespace, quoting, order, repetition of
list headers) is varied within what senders may do.

``exchange(rng)`` -> spec as in vp/hp.py, plus 'tls', 'closes' (the last
response ends with the connection) and 'tags' (what it is made of).
"""

import base64
import datetime
import string
import urllib.parse

from vp import payload, wire

TCHAR = "!#$%&'*+-.^_`|~" + string.digits + string.ascii_letters
NOW = datetime.datetime.utcnow


def imf(dt):
    return '%s, %02d %s %04d %02d:%02d:%02d GMT' % (
        'Mon Tue Wed Thu Fri Sat Sun'.split()[dt.weekday()], dt.day,
        'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()[
            dt.month - 1], dt.year, dt.hour, dt.minute, dt.second)


def ago(seconds):
    return imf(NOW() - datetime.timedelta(seconds=seconds))


class Speaker:
    """Ways to spell things."""

    def __init__(self, rng):
        self.rng = rng

    def token(self, n=9):
        return 'x' + ''.join(self.rng.choice(TCHAR)
                             for _ in range(self.rng.randint(0, n)))

    def quoted(self, s):
        out = ''
        for c in s:
            out += '\\' + c if c in '"\\' or self.rng.random() < .05 else c
        return '"%s"' % out

    def text(self):
        return ''.join(self.rng.choice('abc, ;=<>@/"\\()[]\t\xe9\xff*%1')
                       for _ in range(self.rng.randint(0, 8)))

    def value(self):
        """Token or quoted string"""
        if self.rng.random() < .5:
            return self.token()
        return self.quoted(self.text())

    def maybe_quoted(self, token):
        return token if self.rng.random() < .6 else self.quoted(token)

    def case(self, s):
        return self.rng.choice([s, s, s, s.lower(), s.upper()])

    def comma(self, items):
        r = self.rng
        out = ''
        for k, x in enumerate(items):
            if k:
                out += r.choice([', ', ', ', ', ', ',', ' , ', ',\t', ' ,'])
            out += x
        return out

    def semi(self, items):
        return self.rng.choice(['; ', ';', ' ; ', ';\t']).join(items)

    def comment(self, depth=0):
        s = '('
        for _ in range(self.rng.randint(0, 4)):
            s += self.rng.choice(['abc ', 'a, b', '\\(', '\\)', '+http://a/',
                                  '\xe9', 'x;y', '"'])
            if depth < 3 and self.rng.random() < .2:
                s += self.comment(depth + 1)
        return s + ')'

    def product(self):
        s = self.token()
        return s + '/' + self.token() if self.rng.random() < .7 else s

    def agent(self):
        return ' '.join([self.product()] + [
            self.rng.choice([self.product, self.comment])()
            for _ in range(self.rng.randint(0, 3))])

    def etag(self, weak=None):
        if weak is None:
            weak = self.rng.random() < .3
        return ('W/' if weak else '') + '"%s"' % ''.join(
            self.rng.choice("abc123!#,;'\\()*/\xff") for _ in range(
                self.rng.randint(0, 8)))

    def q(self):
        return self.rng.choice(['0', '1', '0.5', '0.123', '1.000', '0.', '1.',
                                '0.7', '0.05'])

    def weight(self):
        if self.rng.random() < .5:
            return ''
        return self.rng.choice([';', '; ', ' ; ']) + \
            self.rng.choice(['q', 'Q']) + '=' + self.q()

    def host(self):
        h = self.rng.choice(['example.com', 'a.example', 'localhost', '10.0.0.1',
                             '[::1]', '[2001:db8::7]', 'xn--80ak6aa92e.com',
                             'EXAMPLE.org', 'a_b.example', '[v1.fe80::a+en1]'])
        return h + self.rng.choice(['', '', ':80', ':8080', ':443'])

    def path(self):
        s = ''
        for _ in range(self.rng.randint(1, 3)):
            s += '/' + ''.join(self.rng.choice(
                ['a', 'b', '1', '%20', '%D1%8F', '-', '.', '_', '~', ':', '@',
                 '!', '$', '&', "'", '(', ')', '*', '+', ',', ';', '='])
                for _ in range(self.rng.randint(0, 5)))
        # '//' at the beginning is legal, but would be an authority elsewhere
        while s.startswith('//'):
            s = s[1:]
        return s

    def query(self):
        if self.rng.random() < .6:
            return ''
        return '?' + ''.join(self.rng.choice(
            ['a', '=', '&', '/', '?', '%25', '+', ':', '@', ';'])
            for _ in range(self.rng.randint(0, 8)))

    def uri(self, scheme=None):
        return '%s://%s%s%s' % (scheme or self.rng.choice(['http', 'https']),
                                self.host(), self.path(), self.query())

    def reference(self):
        return self.rng.choice([
            self.uri, lambda: self.path() + self.query(), lambda: 'other',
            lambda: '../other', lambda: './a:b', lambda: '//b.example/x'])()

    def language(self):
        return self.rng.choice(['en', 'fr', 'en-US', 'zh-Hant-TW', 'de-CH-1996',
                                'x-foo', 'i-klingon', 'sl-rozaj-biske', 'EN',
                                'sr-Latn', 'de-a-value', 'en-x-US'])

    def ext(self, s='\u20ac rates'):
        return self.rng.choice(['UTF-8', 'utf-8', 'Utf-8']) + "'" + \
            self.rng.choice(['', 'en', 'fr-CA']) + "'" + \
            urllib.parse.quote(s, safe='')

    def media_type(self):
        t = self.rng.choice(['text/plain', 'text/html', 'application/pdf',
                             'image/png', 'application/vnd.foo+x', 'foo/bar',
                             'text/csv', 'application/octet-stream', 'x-a/x-b'])
        t = self.case(t)
        if self.rng.random() < .4:
            names = self.rng.sample(['charset', 'foo', 'bar', 'level'],
                                    self.rng.randint(1, 2))
            for n in names:
                t += self.rng.choice([';', '; ', ' ; ']) + self.case(n) + '=' + (
                    self.maybe_quoted('utf-8') if n == 'charset'
                    else self.value())
        return t

    def b64(self, data):
        return base64.b64encode(data).decode()


class Maker:

    def __init__(self, rng):
        self.rng = rng
        self.say = Speaker(rng)
        self.tags = set()
        self.version = rng.choice(['HTTP/1.1'] * 5 + ['HTTP/1.0', 'HTTP/2'])
        self.tls = rng.random() < .4
        self.proxy = False
        self.req = {'method': 'GET', 'headers': [], 'body': b'', 'trailers': []}
        self.target = None
        self.host = self.say.host()
        self.final = {}
        self.interim = []
        self.age = None
        self.closes = False

    # -- headers

    def has(self, msg, name):
        return any(k.lower() == name.lower() for k, _ in msg['headers'])

    def get(self, msg, name):
        for k, v in msg['headers']:
            if k.lower() == name.lower():
                return v

    def put(self, msg, name, value):
        """One header, or several with the elements of a list."""
        if self.has(msg, name):
            return False
        if isinstance(value, list):
            if len(value) > 1 and self.rng.random() < .3:
                k = self.rng.randint(1, len(value) - 1)
                parts = [value[:k], value[k:]]
            else:
                parts = [value]
            for p in parts:
                msg['headers'].append((name, self.say.comma(p)))
        else:
            msg['headers'].append((name, value))
        return True

    def some(self, items, lo=1, hi=3):
        return self.rng.sample(items, self.rng.randint(lo, min(hi, len(items))))

    # -- bodies

    def body(self, msg, big=False, kinds=None):
        """Give it a body (and what describes it)."""
        r = self.rng
        s = self.say
        kind = r.choice(kinds or ['text', 'json', 'xml', 'form', 'multipart',
                                  'binary', 'empty text', 'problem'])
        self.tags.add('body ' + kind)
        data = b''
        if kind == 'text':
            ct = r.choice(['text/plain', 'text/html; charset=utf-8',
                           'text/css', 'text/plain; charset="utf-8"',
                           'text/html;charset=UTF-8'])
            data = 'hello \u044f <p> &'.encode() * r.randint(1, 3)
        elif kind == 'json':
            ct = r.choice(['application/json', 'application/JSON',
                           'application/vnd.foo+json', 'application/ld+json'])
            data = payload.json_value(r, chars='abc \u044f\u20ac').encode()
        elif kind == 'problem':
            ct = 'application/problem+json'
            data = b'{"type": "http://example.com/x", "title": "Oops"}'
        elif kind == 'xml':
            ct = r.choice(['application/xml', 'text/xml', 'image/svg+xml',
                           'application/atom+xml; charset=utf-8'])
            decl = r.choice([None, '', 'utf-8', 'UTF-8'])
            data = payload.xml(r, 'abc \u044f\u20ac', decl).encode()
        elif kind == 'form':
            ct = 'application/x-www-form-urlencoded'
            data = payload.form(r)
        elif kind == 'multipart':
            b = r.choice(payload.BOUNDARIES)
            if b == '--':
                b = 'z'
            ct = 'multipart/%s; %s' % (r.choice(['mixed', 'form-data',
                                                 'related', 'alternative']),
                                       self.boundary(b))
            data = payload.multipart(b, r).encode('latin-1')
        elif kind == 'binary':
            ct = r.choice(['application/octet-stream', 'image/png',
                           'application/zip', 'video/mp4'])
            data = bytes(r.randrange(256) for _ in range(r.choice([1, 50, 400])))
        else:
            ct = 'text/plain'
        if r.random() < .05 and kind == 'binary':
            data = data * 100
        if not self.put(msg, 'Content-Type', ct) and \
                self.get(msg, 'Content-Type') != ct:
            return
        msg['plain'] = data
        if data and r.random() < .25:
            codings = r.choice([['gzip'], ['gzip'], ['deflate'], ['br'],
                                ['x-gzip'], ['gzip', 'br'],
                                ['deflate', 'gzip']])
            self.put(msg, 'Content-Encoding', [s.case(c) for c in codings])
            for c in codings:
                data = payload.apply(c, data, r)
        msg['body'] = data
        if r.random() < .2:
            self.put(msg, 'Content-Language', [
                s.language() for _ in range(r.randint(1, 2))])

    # -- requests

    def request(self, method, body=None):
        q = self.req
        q['method'] = method
        if body is None:
            body = method in ('POST', 'PUT', 'PATCH') and self.rng.random() < .9
        if body:
            kinds = None
            if method == 'PATCH':
                kinds = ['patch']
                self.put(q, 'Content-Type', 'application/json-patch+json')
                q['body'] = q['plain'] = b'[]'
            else:
                self.body(q, kinds=kinds)
        q['wants body'] = body or method in ('POST', 'PUT', 'PATCH')

    def neutral_request(self):
        """Features that do not call for anything in the response."""
        q, r, s = self.req, self.rng, self.say
        method = q['method']
        safe = method in ('GET', 'HEAD', 'OPTIONS', 'TRACE', 'PROPFIND',
                          'REPORT', 'SEARCH')
        if method == 'TRACE':
            if r.random() < .5:
                self.put(q, 'Max-Forwards', str(r.randint(0, 20)))
            return
        if r.random() < .9:
            self.put(q, 'User-Agent', s.agent())

        def on(p=.15):
            return r.random() < p
        if on(.3):
            self.put(q, 'Accept', [x + s.weight() + r.choice(['', '', ';ext'])
                                   if ';q=' in x else x + s.weight()
                                   for x in self.some([
                                       '*/*', 'text/*', 'text/html',
                                       'image/png', 'foo/bar;a=b',
                                       'text/plain;charset="utf-8"',
                                       'Application/JSON'], 1, 4)])
        if on():
            self.put(q, 'Accept-Charset', [x + s.weight() for x in self.some(
                ['utf-8', 'iso-8859-1', '*', 'UTF-16', 'koi8-r'])])
        if on(.3):
            self.put(q, 'Accept-Encoding', [x + s.weight() for x in self.some(
                ['gzip', 'deflate', 'br', 'identity', '*'], 1, 4)])
        elif on(.05):
            self.put(q, 'Accept-Encoding', '')
        if on(.2):
            self.put(q, 'Accept-Language', [x + s.weight() for x in self.some(
                ['en', 'fr-CH', 'de', '*', 'zh-Hant', 'en-US'], 1, 4)])
        if on():
            self.put(q, 'From', r.choice([
                'joe@example.com', 'Joe <joe@example.com>',
                '"Joe Q. Public" <john.q.public@example.com>']))
        if on():
            scheme = None if self.tls else 'http'
            self.put(q, 'Referer', r.choice([s.uri(scheme), s.path(),
                                             'about:blank']))
        if on():
            self.put(q, 'Cookie', 'a=b; c="d"; $x=')
        if on(.1):
            self.put(q, 'DNT', '1')
        if on(.1):
            self.put(q, 'Origin', r.choice(['null', 'http://a.example',
                                            'https://b.example:8080']))
        if on(.1):
            self.put(q, 'Via', [self.via() for _ in range(r.randint(1, 2))])
        if on(.1):
            self.put(q, 'Forwarded', [self.forwarded()
                                      for _ in range(r.randint(1, 3))])
        if on(.1):
            self.put(q, 'Date', ago(r.randint(0, 100)))
        if on(.1):
            self.put(q, s.token(), s.text().strip() or 'x')
        if on(.1):
            self.put(q, r.choice(['Depth', 'Sec-Fetch-Mode', 'Early-Data',
                                  'X-Requested-With', 'Want-Digest', 'Slug']),
                     'x')
        if on(.1):
            self.put(q, 'Link', self.links())
        if on(.1) and self.version != 'HTTP/1.0':
            self.put(q, 'Alt-Used', s.host())
        if on(.12) and method in ('GET', 'HEAD') or \
                on(.05) and method in ('POST',):
            if not self.has(q, 'Cache-Control') and not self.has(q, 'Pragma'):
                k = r.choice(['max-age=0', 'no-cache', 'no-store',
                              'no-transform', 'max-stale', 'max-stale=50',
                              'min-fresh=5', 'only-if-cached', 'foo', 'x="y z"',
                              'stale-if-error=60'])
                if self.age is None:
                    self.put(q, 'Cache-Control', [k])
                    if k == 'no-cache':
                        self.put(q, 'Pragma', 'no-cache')
        if on(.15):
            self.credentials(q, 'Authorization')
        if on(.15):
            prefs = []
            if not safe:
                prefs += ['respond-async', 'wait=10']
            if method != 'GET':
                prefs += [r.choice(['return=minimal', 'return=representation'])]
            else:
                prefs += ['return=representation']
            prefs += [r.choice(['handling=strict', 'handling=lenient']),
                      'foo; bar', 'x-pref="a b";y=z', 'depth-noroot']
            if method != 'PROPFIND':
                prefs.remove('depth-noroot')
            self.put(q, 'Prefer', self.some(prefs))
        if on(.1) and self.version == 'HTTP/1.1':
            te = r.choice([['trailers'], ['gzip;q=0.5'],
                           ['trailers', 'deflate; q=0.5'], ['foo;a="b"'], []])
            if te:
                self.put(q, 'TE', te)
                self.option(q, 'TE')
        elif on(.05) and self.version == 'HTTP/2':
            self.put(q, 'TE', 'trailers')
        if on(.1) and self.version == 'HTTP/1.1' and method != 'CONNECT':
            self.offer()
        if on(.08) and self.version != 'HTTP/2':
            self.option(q, r.choice(['keep-alive', 'foo']))
        if on(.1) and q['body'] and self.final['status'] != 101:
            if self.version != 'HTTP/1.0' and not self.has(q, 'Expect'):
                self.put(q, 'Expect', s.case('100-continue'))
                if r.random() < .6 and self.final.get('status') != 417:
                    self.interim.insert(0, {'status': 100, 'headers': []})
                    self.tags.add('100')
        if on(.05) and method == 'OPTIONS':
            self.put(q, 'Max-Forwards', '3')
        if on(.1):
            self.put(q, 'Access-Control-Request-Method', 'PUT') \
                if method == 'OPTIONS' else None

    def option(self, msg, opt):
        msg.setdefault('options', []).append(opt)

    def offer(self):
        """Offer an upgrade; nobody has to follow."""
        q, r = self.req, self.rng
        if self.has(q, 'Upgrade') or self.final.get('status') in (101, 426) or \
                self.has(self.final, 'Upgrade'):
            return
        self.tags.add('offer')
        what = r.choice(['websocket', 'foo/1.0', 'h2c', 'TLS/1.0'])
        if what == 'h2c' and self.tls:
            what = 'IRC/6.9'
        self.put(q, 'Upgrade', [what] + r.choice([[], ['RTA/x11']]))
        self.option(q, 'upgrade')
        if what == 'h2c':
            self.put(q, 'HTTP2-Settings', 'AAMAAABkAARAAAAAAAIAAAAA')
            self.option(q, 'HTTP2-Settings')

    def credentials(self, msg, name):
        r, s = self.rng, self.say
        kinds = ['basic', 'digest', 'token68', 'params']
        if self.tls:
            kinds.append('bearer')
        kind = r.choice(kinds)
        self.tags.add('credentials ' + kind)
        if kind == 'basic':
            user = r.choice(['joe', '', 'caf\xe9', 'a b'])
            v = s.case('Basic') + r.choice([' ', '  ']) + s.b64(
                (user + ':' + r.choice(['', 'pass:word', '\u043f'])).encode())
        elif kind == 'digest':
            v = 'Digest ' + s.comma([
                'username="joe"', 'realm=%s' % s.quoted('a, "b"'),
                'nonce="abc"', 'uri="/"', 'qop=auth', 'nc=00000001',
                'response="%s"' % ('0' * 32)])
        elif kind == 'token68':
            v = r.choice(['Negotiate', 'NTLM', 'Foo']) + ' ' + r.choice(
                ['abc=', 'YII+/a==', 'a.b-c_d~'])
        elif kind == 'params':
            v = 'Foo ' + s.comma(['a=%s' % s.value(), 'b=c'])
        else:
            v = s.case('Bearer') + ' ' + r.choice(['abc.def-123', 'a+/~._==',
                                                   'x'])
        self.put(msg, name, v)

    def challenges(self, name):
        r, s = self.rng, self.say
        out = []
        for kind in self.some(['basic', 'digest', 'bearer', 'negotiate',
                               'other'], 1, 2):
            if kind == 'bearer' and (not self.tls or
                                     name == 'Proxy-Authenticate'):
                kind = 'basic'
            self.tags.add('challenge ' + kind)
            if kind == 'basic':
                ps = ['%s=%s' % (s.case('realm'), s.quoted(s.text()))]
                if r.random() < .4:
                    ps.append('charset=' + r.choice(['"UTF-8"', 'utf-8']))
                r.shuffle(ps)
                out.append(s.case('Basic') + ' ' + s.comma(ps))
            elif kind == 'digest':
                out.append('Digest ' + s.comma(
                    ['realm=%s' % s.quoted(s.text()), 'qop="auth, auth-int"',
                     'algorithm=SHA-256', 'nonce="a,b"', 'stale=TRUE']))
            elif kind == 'bearer':
                ps = ['realm="example"']
                if r.random() < .5:
                    ps.append('scope="openid profile"')
                if self.get(self.req, 'Authorization') is not None and \
                        self.get(self.req, 'Authorization').lower().startswith(
                            'bearer'):
                    ps += ['error="%s"' % {
                        400: 'invalid_request', 401: 'invalid_token',
                        403: 'insufficient_scope'}.get(self.final['status'],
                                                       'other')]
                    if r.random() < .5:
                        ps += ['error_description="The token expired"',
                               'error_uri="http://a.example/x"']
                r.shuffle(ps)
                out.append(s.case('Bearer') + ' ' + s.comma(ps))
            elif kind == 'negotiate':
                out.append(r.choice(['Negotiate', 'Negotiate oYG2MIG==',
                                     'NTLM']))
            else:
                out.append('Foo a=%s' % s.value())
        return out

    # -- lists of things

    def via(self):
        r, s = self.rng, self.say
        v = r.choice(['1.1', '1.0', 'HTTP/1.1', '2', 'HTTP/2.0', 'Foo/x'])
        v += r.choice([' ', '\t', '  ']) + r.choice([s.host(), 'fred', s.token()])
        if r.random() < .4:
            v += ' ' + s.comment()
        return v

    def forwarded(self):
        r, s = self.rng, self.say
        node = r.choice(['192.0.2.43', '"192.0.2.43:47011"', '"[2001:db8::1]"',
                         '"[2001:db8::1]:4711"', 'unknown', '_hidden',
                         '"_a.b-c:_d"', '"unknown:80"'])
        ps = ['%s=%s' % (s.case('for'), node)]
        ps += self.some(['proto=https', 'host=example.com', 'by=203.0.113.43',
                         'by="_x"', 'host="a.example:80"', 'Proto=http',
                         'secret=abc'], 0, 1)
        r.shuffle(ps)
        return ';'.join(ps)

    def boundary(self, b):
        r, s = self.rng, self.say
        v = b if payload.TOKEN.match(b) and r.random() < .5 else s.quoted(b)
        ps = [s.case('boundary') + '=' + v]
        if r.random() < .1:
            ps.append('foo=%s' % s.value())
            r.shuffle(ps)
        return s.semi(ps)

    def links(self, rel=None):
        r, s = self.rng, self.say
        out = []
        for k in range(r.randint(1, 3)):
            rels = rel if rel and not k else r.choice(
                ['next', '"next prev"', 'stylesheet', '"http://a.example/rel"',
                 'alternate', '"start http://b.example/x"', 'REL'])
            if rels == 'REL':
                rels = '"x-a.b http://b.example/X#y"'
            ps = ['rel=' + rels]
            ps += self.some(['title="a, b; c"',
                             r.choice(['type="Text/html"', 'type="a/b"']), 'hreflang=en', 'media="print"',
                             'title*=' + s.ext(), 'anchor="#foo"', 'as=style',
                             'crossorigin', 'foo=%s' % s.value()], 0, 2)
            r.shuffle(ps)
            out.append('<%s>' % r.choice([s.reference(), '/x', '']) + ''.join(
                r.choice(['; ', ';', ' ; ']) + p for p in ps))
        return out

    def alt_svc(self):
        r = self.rng
        if r.random() < .15:
            return 'clear'
        return ['%s="%s"' % (r.choice(['h2', 'h3', 'http%2F1.1', 'w%3Dx%3Ay#z']),
                             r.choice([':443', 'alt.example:8000',
                                       '[::1]:8443'])) +
                r.choice(['', '; ma=3600', ';ma=60; persist=1', '; foo=bar',
                          '; persist=1'])
                for _ in range(r.randint(1, 3))]

    def sts(self):
        r, s = self.rng, self.say
        ds = [s.case('max-age') + '=' + s.maybe_quoted('31536000')]
        ds += self.some([s.case('includeSubDomains'), 'preload', 'foo="b c"'],
                        0, 3)
        r.shuffle(ds)
        return s.semi(ds)

    def disposition(self):
        r, s = self.rng, self.say
        t = s.case(r.choice(['attachment', 'inline', 'foo']))
        ps = r.choice([[], ['filename=a.txt'], ['filename="a b.txt"'],
                       ['FILENAME="x.html"', 'filename*=' + s.ext()],
                       ['filename=x', 'foo=%s' % s.value()]])
        return s.semi([t] + ps)

    # -- responses

    def respond(self, status, body=None, headers=()):
        p = self.final
        p['status'] = status
        p.setdefault('headers', [])
        p.setdefault('body', b'')
        p.setdefault('trailers', [])
        for k, v in headers:
            self.put(p, k, v)
        if body is None:
            body = self.rng.random() < .85 or 400 <= status <= 599
        if status in (204, 205, 304, 101):
            body = False
        if body:
            self.body(p, kinds=['text', 'json', 'xml', 'binary', 'problem',
                                'text', 'multipart', 'empty text'])
        if self.req['method'] == 'CONNECT' and 200 <= status < 300:
            p['body'] = b''
            p['headers'] = [h for h in p['headers']
                            if not h[0].startswith('Content-')]

    def neutral_response(self):
        p, q, r, s = self.final, self.req, self.rng, self.say
        status, method = p['status'], q['method']

        def on(x=.15):
            return r.random() < x
        date = r.randint(0, 60) if self.age is None else \
            self.age + r.randint(0, 300)
        p['date'] = date
        if status != 101 and not self.has(p, 'Date'):
            self.put(p, 'Date', ago(date))
        if on(.4):
            self.put(p, 'Server', s.agent())
        success = 200 <= status < 300
        if method == 'CONNECT' and success:
            if on():
                self.put(p, 'Via', [self.via()])
            return
        if status == 101:
            return
        conditional = self.has(q, 'If-None-Match') or \
            self.has(q, 'If-Modified-Since') or self.has(q, 'If-Range') or \
            self.has(q, 'If-Match') or self.has(q, 'If-Unmodified-Since')
        described = status != 304
        if (success or status == 304) and method in ('GET', 'HEAD', 'PUT') and \
                not conditional:
            if on(.3):
                self.put(p, 'ETag', s.etag())
            if on(.3):
                self.put(p, 'Last-Modified', ago(date + r.choice(
                    [0, 1, 3600, 10 ** 6, 10 ** 8])))
        if self.age is None and on(.35):
            self.freshness(success)
        if on(.2):
            self.put(p, 'Vary', r.choice(['*', ['Accept-Encoding'],
                                          ['accept', 'X-Foo', 'Cookie'],
                                          ['Prefer', 'Origin']]))
        if on(.1):
            self.put(p, 'Via', [self.via() for _ in range(r.randint(1, 3))])
        if on(.1):
            self.put(p, 'Set-Cookie', 'a=b; Path=/; HttpOnly')
        if on(.15) and success:
            allow = self.some(['GET', 'HEAD', 'OPTIONS', 'PUT', 'FOO'], 0, 4)
            if method not in allow:
                allow.append(method)
            extra = on(.3)
            if extra:
                allow += [x for x in ('PATCH', 'POST') if x not in allow]
            r.shuffle(allow)
            if self.put(p, 'Allow', allow) and extra:
                self.put(p, 'Accept-Patch', ['application/json-patch+json',
                                             'text/x-foo;charset="utf-8"'])
                self.put(p, 'Accept-Post', ['*/*'])
        elif on(.08) and not self.has(p, 'Allow'):
            self.put(p, 'Accept-Patch', [s.media_type()
                                         if r.random() < .5 else 'a/b'])
        elif on(.08) and not self.has(p, 'Allow'):
            self.put(p, 'Accept-Post', r.choice([['text/*'], ['*/*'],
                                                 ['image/png', 'a/b;c=d']]))
        if on(.15):
            self.put(p, 'Link', self.links())
        if on(.1) and status != 421:
            self.put(p, 'Alt-Svc', self.alt_svc())
        if on(.15) and self.tls:
            self.put(p, 'Strict-Transport-Security', self.sts())
        if on(.1) and described and p['body']:
            self.put(p, 'Content-Disposition', self.disposition())
        if on(.1) and method in ('GET', 'HEAD', 'POST') and described and \
                success:
            self.put(p, 'Content-Location', r.choice(
                ['/another/thing', 'http://other.example/a?b']))
        if on(.1):
            self.put(p, 'Accept-Ranges', r.choice([['bytes'], ['none'],
                                                   ['bytes', 'seconds']]))
        if on(.1) and (300 <= status < 400 or status in (413, 429, 503)):
            self.put(p, 'Retry-After', r.choice(['120', '0', imf(
                NOW() + datetime.timedelta(hours=3))]))
        if on(.1):
            for k, v in self.some([
                    ('Access-Control-Allow-Origin', '*'),
                    ('Access-Control-Allow-Origin', 'http://a.example:8080'),
                    ('Access-Control-Allow-Credentials', 'true'),
                    ('Access-Control-Expose-Headers', ['X-Foo', 'ETag']),
                    ('Access-Control-Allow-Methods', ['GET', 'PUT']),
                    ('Access-Control-Allow-Headers', ['x-foo']),
                    ('Access-Control-Max-Age', '600'),
                    ('Timing-Allow-Origin', '*'),
                    ('X-Content-Type-Options', 'nosniff'),
                    ('Cross-Origin-Resource-Policy', 'same-site'),
                    ('X-Frame-Options', 'DENY'), ('Age-Foo', 'bar')]):
                self.put(p, k, v)
        if on(.1):
            self.put(p, s.token(), s.text().strip() or 'x')
        if on(.08) and status != 401:
            self.put(p, 'WWW-Authenticate', self.challenges('WWW-Authenticate'))
        if on(.3) and self.has(q, 'Prefer') and status != 412:
            names = [v for k, v in q['headers'] if k == 'Prefer']
            applied = [x for x in ('return=minimal', 'return=representation',
                                   'respond-async', 'handling=strict',
                                   'handling=lenient', 'wait=10')
                       if any(x in v for v in names)]
            if applied:
                self.put(p, 'Preference-Applied', self.some(applied))
                if method == 'GET':
                    self.put(p, 'Vary', ['Prefer', 'Accept'])
        if on(.05) and self.version == 'HTTP/1.1' and not (
                method == 'CONNECT' and success):
            if not self.has(q, 'Upgrade') and not self.has(p, 'Upgrade') and \
                    self.http11():
                self.put(p, 'Upgrade', ['foo/2', 'websocket'])
                self.option(p, 'upgrade')
        if on(.08) and success and method == 'GET':
            w = '%03d %s %s' % (199 if self.age is not None and r.random() < .5 else 299, r.choice(
                ['-', 'a.example:80', 'fred']), s.quoted('a, b'))
            if on(.4):
                w += ' "%s"' % self.get(p, 'Date')
            self.put(p, 'Warning', [w])

    def http11(self):
        return self.version == 'HTTP/1.1'

    def freshness(self, success):
        p, r = self.final, self.rng
        if self.has(p, 'Cache-Control'):
            return
        k = r.choice([['max-age=600'], ['max-age=0', 'must-revalidate'],
                      ['no-cache'], ['no-store'], ['private'], ['public'],
                      ['private', 'max-age=60'], ['public', 's-maxage=10'],
                      ['no-cache="Set-Cookie"', 'max-age=5'],
                      ['private="X-Foo, X-Bar"', 's-maxage=5'],
                      ['no-transform'], ['proxy-revalidate'], ['foo', 'x="y"'],
                      ['max-age=5', 'stale-while-revalidate=50'],
                      ['max-age=5', 'stale-if-error=50'],
                      ['no-cache', 'no-store', 'must-revalidate']])
        r.shuffle(k)
        self.put(p, 'Cache-Control', [self.say.case(x) if '"' not in x else x
                                      for x in k])
        if r.random() < .3:
            self.put(p, 'Expires', ago(r.choice([-3600, 0, 3600, -10 ** 8])))

    # -- the end

    def finish(self):
        q, p, r, s = self.req, self.final, self.rng, self.say
        h2 = self.version == 'HTTP/2'
        q['version'] = self.version
        rv = 'HTTP/2' if h2 else self.version
        if self.version == 'HTTP/1.0' and r.random() < .7:
            rv = 'HTTP/1.1'
        scheme = 'https' if self.tls else 'http'
        if self.target is None:
            self.target = self.path
        q['target'] = self.target
        responses = self.interim + [p]
        for m in [q] + responses:
            m.setdefault('headers', [])
            m.setdefault('trailers', [])
            m.setdefault('body', b'')
            if not h2 and m.get('options'):
                opts = list(m['options'])
                r.shuffle(opts)
                self.put(m, 'Connection', [s.case(o) for o in opts])
        for m in responses:
            m['version'] = rv
            m.setdefault('reason', r.choice(['OK', '', 'Foo bar', 'caf\xe9\t"'])
                         if not h2 else None)
        self.frame(q, True)
        self.frame(p, False)
        for m in [q] + responses:
            shuffle(m, r)
            if not h2:
                m['headers'] = [(s.case(k) if r.random() < .3 else k, v)
                                for k, v in m['headers']]
        host = None
        if self.version == 'HTTP/1.1' or self.version == 'HTTP/1.0' and \
                r.random() < .5 or h2 and r.random() < .1:
            host = ('Host', self.host)
        if host:
            if r.random() < .8:
                q['headers'].insert(0, host)
            else:
                q['headers'].append(host)

        def final(m):
            hs = [(k.lower() if h2 else k, v.encode('latin-1'))
                  for k, v in m['headers']]
            ts = [(k.lower() if h2 else k, v.encode('latin-1'))
                  for k, v in m['trailers']]
            d = {'version': m['version'], 'headers': hs, 'body': m['body'],
                 'trailers': ts}
            if 'status' in m:
                d.update(status=m['status'], reason=m['reason'])
            else:
                d.update(scheme=scheme, method=m['method'], target=m['target'])
            return d
        tags = self.tags | {self.version, q['method'], 'status %d' % p['status'],
                            scheme}
        return {'req': final(q), 'resps': [final(m) for m in responses],
                'closes': self.closes, 'tags': sorted(tags), 'tls': self.tls,
                'payloads': [q.get('plain'), p.get('plain')]}

    def frame(self, m, is_request):
        """Content-Length, Transfer-Encoding, trailers, Connection: close"""
        r, s = self.rng, self.say
        if self.version == 'HTTP/2':
            if not is_request and (self.req['method'] == 'HEAD' or
                                   m['status'] == 304):
                if r.random() < .5 and m['status'] != 204:
                    self.put(m, 'Content-Length', str(
                        len(m['body']) or r.randint(0, 5000)
                        if m['status'] == 304 else len(m['body'])))
                m['body'] = b''
                m['plain'] = None
                return
            if m['body'] and r.random() < .5 or not m['body'] and is_request \
                    and m['wants body'] and r.random() < .5:
                self.put(m, 'Content-Length', str(len(m['body'])))
            if m['body'] and r.random() < .1:
                self.trailers(m)
            return
        if is_request:
            if not m['body'] and not m['wants body']:
                return
            if self.version == 'HTTP/1.1' and (
                    m.get('must chunk') or r.random() < .35):
                self.chunk(m)
            else:
                self.put(m, 'Content-Length', str(len(m['body'])))
            return
        status, method = m['status'], self.req['method']
        m['framing'] = 'none'
        if status in (204, 101) or method == 'CONNECT' and 200 <= status < 300:
            return
        closing = r.random() < .12
        if method == 'HEAD' or status == 304:
            if r.random() < .6:
                n = len(m['body']) if status != 304 else r.randint(0, 5000)
                self.put(m, 'Content-Length', str(n)) \
                    if self.version == 'HTTP/1.0' or r.random() < .7 else \
                    self.put(m, 'Transfer-Encoding', 'chunked')
            m['body'] = b''
            m['plain'] = None
        elif self.version == 'HTTP/1.1' and r.random() < .35:
            self.chunk(m)
        elif closing and status != 205:
            m['framing'] = 'close'
        else:
            m['framing'] = 'length'
            self.put(m, 'Content-Length', str(len(m['body'])))
        if closing or m['framing'] == 'close' or m.get('must close'):
            self.closes = True
            self.options_again(m, 'close')

    def options_again(self, m, opt):
        for k, (n, v) in enumerate(m['headers']):
            if n == 'Connection':
                if opt not in v.lower():
                    m['headers'][k] = (n, v + ', ' + opt)
                return
        m['headers'].append(('Connection', self.say.case(opt)))

    def chunk(self, m):
        r = self.rng
        m['framing'] = 'chunked'
        m['codings'] = r.choice([[], [], [], ['gzip'], ['deflate']])
        self.put(m, 'Transfer-Encoding', m['codings'] + ['chunked'])
        self.tags.add('chunked')
        if r.random() < .3:
            self.trailers(m)

    def trailers(self, m):
        r, s = self.rng, self.say
        self.tags.add('trailers')
        names = self.some(['X-Checksum', 'Foo', 'Digest', 'Link', 'Server-Timing'],
                          1, 3)
        names = [n for n in names if not self.has(m, n)]
        if not names:
            return
        self.put(m, 'Trailer', [s.case(n) for n in names])
        for n in names:
            if r.random() < .8:
                m['trailers'].append((n, '</x>; rel=next' if n == 'Link'
                                      else 'abc'))


def shuffle(m, r):
    """But not among headers with the same name."""
    hs = m['headers']
    mixed = list(hs)
    r.shuffle(mixed)
    queues = {}
    for k, v in hs:
        queues.setdefault(k.lower(), []).append((k, v))
    m['headers'] = [queues[k.lower()].pop(0) for k, _ in mixed]


# -- scenarios: every one makes a request and the final response

def plain(m):
    m.request(m.rng.choice(['GET', 'GET', 'GET', 'HEAD', 'POST', 'PUT', 'DELETE',
                            'PATCH', 'FOO', 'OPTIONS']))
    q = m.req
    status = m.rng.choice([200, 200, 200, 204, 403, 404, 500, 503, 410, 502, 504,
                           501, 414, 431, 429, 400])
    if q['method'] == 'PUT':
        status = m.rng.choice([status, 201, 204])
    if status == 205:
        status = 204
    m.respond(status)


def created(m):
    m.request(m.rng.choice(['POST', 'PUT', 'PATCH', 'MKCOL', 'FOO', 'COPY']))
    hs = [('Location', m.rng.choice(['/new/1', m.say.uri(), 'new?x=y']))]
    if m.req['method'] != 'POST' and m.rng.random() < .3:
        hs = [('Location', m.path)]         # created right here
    if m.rng.random() < .4:
        hs.append(('ETag', m.say.etag()))
    m.respond(201, headers=hs)


def accepted(m):
    m.request(m.rng.choice(['POST', 'PUT', 'DELETE', 'PATCH', 'LOCK']))
    m.put(m.req, 'Prefer', m.rng.choice(['respond-async', 'respond-async, wait=10']))
    m.respond(202, body=True)


def reset(m):
    m.request('POST')
    m.respond(205)


def redirect(m):
    status = m.rng.choice([301, 302, 303, 307, 308, 300])
    m.request(m.rng.choice(['GET', 'POST', 'HEAD', 'PUT', 'FOO', 'OPTIONS']))
    hs = []
    if status != 300 or m.rng.random() < .5:
        hs.append(('Location', m.rng.choice([
            '/elsewhere', 'http://c.example/d?e#f', '//c.example/', '?zzz=1',
            'sub/thing', '/elsewhere#frag'])))
    m.respond(status, headers=hs)


def see_self(m):
    """Post/redirect/get"""
    m.request('POST')
    m.respond(m.rng.choice([303, 302]), headers=[('Location', m.path)])


def not_modified(m):
    m.request(m.rng.choice(['GET', 'HEAD']))
    q, r, s = m.req, m.rng, m.say
    tag = s.etag()
    t = r.randint(1000, 10 ** 7)
    hs = []
    kind = r.choice(['etag', 'date', 'both', 'star'])
    if kind in ('etag', 'both'):
        tags = [s.etag() for _ in range(r.randint(0, 2))]
        tags.insert(r.randint(0, len(tags)), tag)
        m.put(q, 'If-None-Match', tags)
        hs.append(('ETag', tag))
    if kind in ('date', 'both'):
        m.put(q, 'If-Modified-Since', ago(t))
        if r.random() < .5:
            hs.append(('Last-Modified', ago(t + r.randint(0, 100))))
    if kind == 'star':
        m.put(q, 'If-None-Match', '*')
    m.respond(304, headers=hs)


def modified(m):
    m.request(m.rng.choice(['GET', 'HEAD']))
    q, r, s = m.req, m.rng, m.say
    t = r.randint(1000, 10 ** 7)
    if r.random() < .6:
        m.put(q, 'If-None-Match', ['"old1"', 'W/"old2"'])
        hs = [('ETag', '"new%d"' % t)]
        if r.random() < .3:
            # must be ignored, for there is If-None-Match
            m.put(q, 'If-Modified-Since', ago(t))
            hs.append(('Last-Modified', ago(t + 100)))
    else:
        m.put(q, 'If-Modified-Since', ago(t))
        hs = [('Last-Modified', ago(t - r.randint(1, 900)))]
    m.respond(200, headers=hs)


def failed_precondition(m):
    m.request(m.rng.choice(['PUT', 'POST', 'DELETE', 'PATCH', 'GET', 'FOO',
                            'PROPPATCH']))
    q, r, s = m.req, m.rng, m.say
    k = r.choice(['im', 'inm', 'ius', 'if'])
    if k == 'im':
        m.put(q, 'If-Match', [s.etag(False), s.etag(False)])
    elif k == 'inm' and q['method'] != 'GET':
        m.put(q, 'If-None-Match', r.choice(['*', ['"a"', 'W/"b"']]))
    elif k == 'if':
        m.put(q, 'If', '(<urn:uuid:x>)')
    else:
        m.put(q, 'If-Unmodified-Since', ago(10 ** 6))
    m.respond(412)


def kept_precondition(m):
    m.request(m.rng.choice(['PUT', 'DELETE', 'PATCH', 'GET']))
    q, r, s = m.req, m.rng, m.say
    if r.random() < .5:
        m.put(q, 'If-Match', r.choice(['*', ['"a"', '"b"']]))
    else:
        m.put(q, 'If-Unmodified-Since', ago(100))
    m.respond(200)


def written(m):
    """Preconditions were met, and now they would not be (or the reverse)."""
    r, s = m.rng, m.say
    m.request(r.choice(['PUT', 'PUT', 'PATCH', 'POST']))
    q = m.req
    tag, hs = s.etag(False), []
    k = r.choice(['new', 'not new', 'same', 'later'])
    if k == 'new':
        m.put(q, 'If-None-Match', '*')
        hs = [('ETag', tag)]
    elif k == 'not new':
        m.put(q, 'If-Match', ['"old"', '"older"'])
        hs = [('ETag', tag)]
    elif k == 'same':                       # what the client had made it
        m.put(q, 'If-None-Match', ['"x"', tag])
        hs = [('ETag', tag)]
    else:
        m.put(q, 'If-Unmodified-Since', ago(10 ** 6))
        hs = [('Last-Modified', ago(5)), ('Date', ago(4))]
    if r.random() < .2:
        hs.append(('Content-Location', m.path))
    m.respond(r.choice([201 if k == 'new' else 200, 204, 200]), headers=hs)


def unsupported_type_of_nothing(m):
    m.request(m.rng.choice(['POST', 'PUT', 'FOO']), body=False)
    m.put(m.req, 'Content-Type', 'image/x-foo')
    m.respond(415)


def need_precondition(m):
    m.request(m.rng.choice(['PUT', 'DELETE', 'PATCH', 'POST']))
    m.respond(428)


def part(m):
    m.request('GET')
    q, r, s = m.req, m.rng, m.say
    size = r.randint(50, 5000)
    single = r.random() < .6
    unit = 'bytes' if r.random() < .9 else 'lines'
    tag = s.etag(False)
    hs = []
    if r.random() < .7:
        hs.append(('ETag', tag))
        if r.random() < .5:
            m.put(q, 'If-Range', tag)
    elif r.random() < .5:
        t = ago(10 ** 6)
        m.put(q, 'If-Range', t)
        hs.append(('Last-Modified', t))
    full = bytes(r.randrange(32, 127) for _ in range(size))
    full_size = str(size) if r.random() < .8 else '*'

    def spec():
        a = r.randint(0, size - 1)
        b = r.randint(a, size - 1)
        return r.choice([('%d-%d' % (a, b), a, b), ('%d-' % a, a, size - 1),
                         ('-%d' % (size - a), a, size - 1),
                         ('%d-%d' % (a, size + 100), a, size - 1)])
    m.tags.add('part single' if single else 'part several')
    if unit == 'lines':
        m.put(q, 'Range', 'lines=1-5')
        hs.append(('Content-Range', 'lines 1-5/20'))
        m.respond(206, body=False, headers=hs)
        m.put(m.final, 'Content-Type', 'text/plain')
        m.final['body'] = full
        return
    if single:
        sp, a, b = spec()
        m.put(q, 'Range', m.say.rng.choice(['bytes', 'bytes']) + '=' + sp)
        hs.append(('Content-Range', 'bytes %d-%d/%s' % (a, b, full_size)))
        m.respond(206, body=False, headers=hs)
        if not m.has(q, 'If-Range'):
            # part of something that would be malformed in itself
            m.put(m.final, 'Content-Type', r.choice([
                'text/plain', 'application/json', 'application/xml',
                'application/x-www-form-urlencoded',
                'multipart/mixed; boundary=x']))
            if r.random() < .2:
                m.put(m.final, 'Content-Encoding', 'gzip')
        m.final['body'] = full[a:b + 1]
        return
    specs = [spec() for _ in range(r.randint(2, 4))]
    m.put(q, 'Range', 'bytes=' + s.rng.choice([',', ', ']).join(
        x for x, _, _ in specs))
    if r.random() < .2:         # may be served as one
        _, a, b = specs[0]
        hs.append(('Content-Range', 'bytes %d-%d/%s' % (a, b, full_size)))
        m.respond(206, body=False, headers=hs)
        m.put(m.final, 'Content-Type', 'text/plain')
        m.final['body'] = full[a:b + 1]
        return
    data = b''
    for _, a, b in specs:
        data += b'--THIS_SEPARATES\r\n'
        lines = [b'Content-Type: text/plain\r\n',
                 b'%s: bytes %d-%d/%s\r\n' % (r.choice(
                     [b'Content-Range', b'content-range']), a, b,
                     full_size.encode())]
        r.shuffle(lines)
        data += b''.join(lines) + b'\r\n' + full[a:b + 1] + b'\r\n'
    data += b'--THIS_SEPARATES--\r\n'
    m.respond(206, body=False, headers=hs)
    m.put(m.final, 'Content-Type', s.case('multipart/byteranges') +
          '; boundary=' + s.maybe_quoted('THIS_SEPARATES'))
    m.final['body'] = data


def whole_instead(m):
    m.request('GET')
    q, r, s = m.req, m.rng, m.say
    m.put(q, 'Range', r.choice(['bytes=0-5', 'bytes=-5', 'foo=bar',
                                'bytes=0-0,-1']))
    if r.random() < .5:
        m.put(q, 'If-Range', '"old"')
        m.respond(200, headers=[('ETag', '"new"')])
    else:
        m.respond(200)


def unsatisfiable(m):
    m.request('GET')
    m.put(m.req, 'Range', 'bytes=900-1000')
    m.respond(416, headers=[('Content-Range', 'bytes */%d' %
                             m.rng.randint(0, 900))])


def unauthorized(m):
    m.request(m.rng.choice(['GET', 'POST', 'HEAD', 'PUT']))
    status = m.rng.choice([401, 401, 407, 403])
    m.final['status'] = status
    if m.rng.random() < .3:
        m.credentials(m.req, 'Authorization')
    if status == 407:
        m.respond(407, headers=[('Proxy-Authenticate',
                                 m.challenges('Proxy-Authenticate'))])
        if m.rng.random() < .5:
            m.credentials(m.req, 'Proxy-Authorization')
    else:
        m.respond(status, headers=[('WWW-Authenticate',
                                    m.challenges('WWW-Authenticate'))])


def not_allowed(m):
    method = m.rng.choice(['POST', 'PUT', 'DELETE', 'FOO', 'PATCH', 'GET'])
    m.request(method)
    allow = [x for x in ('GET', 'HEAD', 'OPTIONS', 'PATCH') if x != method]
    m.respond(405, headers=[('Allow', m.some(allow, 0, 3) or '')])


def not_acceptable(m):
    m.request('GET')
    if m.rng.random() < .5:
        m.put(m.req, 'Accept', ['foo/bar', 'text/x-foo;q=0.5'])
    else:
        m.put(m.req, 'Accept-Encoding', ['br', 'identity;q=0'])
    m.respond(406)


def timeout(m):
    m.request('POST')
    m.final['must close'] = True
    m.respond(408)


def conflict(m):
    m.request(m.rng.choice(['PUT', 'POST', 'PATCH', 'DELETE', 'COPY']))
    m.respond(409)


def no_length(m):
    m.request('POST', body=True)
    m.version = 'HTTP/1.1'
    m.req['must chunk'] = True
    m.respond(411)


def too_large(m):
    m.request('POST', body=True)
    if not m.req['body']:
        m.req['body'] = m.req['plain'] = b'a=b'
        m.req['headers'] = []
        m.put(m.req, 'Content-Type', 'text/plain')
    m.respond(m.rng.choice([413, 415, 422]))


def unsupported_patch(m):
    m.request('PATCH', body=True)
    m.respond(415, headers=[('Accept-Patch', ['application/merge-patch+json',
                                              'text/x-diff'])])


def failed_expectation(m):
    m.request('POST', body=True)
    if not m.req['body']:
        m.req['body'] = b'abc'
    m.put(m.req, 'Expect', '100-continue')
    m.respond(417)


def misdirected(m):
    m.request('GET')
    m.respond(421, headers=[('Cache-Control', 'no-store')])


def webdav(m):
    r = m.rng
    method, status = r.choice([('PROPFIND', 207), ('PROPPATCH', 207),
                               ('LOCK', 423), ('DELETE', 424), ('MOVE', 201),
                               ('MKCOL', 201), ('COPY', 204), ('MOVE', 507),
                               ('UNLOCK', 204), ('REPORT', 207),
                               ('DELETE', 207), ('BIND', 508)])
    m.request(method, body=False)
    if method in ('PROPFIND', 'PROPPATCH', 'REPORT', 'LOCK'):
        m.body(m.req, kinds=['xml'])
    hs = []
    m.put(m.req, 'Depth', r.choice(['0', '1', 'infinity']))
    if method in ('MOVE', 'COPY', 'BIND'):
        m.put(m.req, 'Destination', 'http://a.example/other')
        m.put(m.req, 'Overwrite', 'T')
    if method == 'PROPFIND' and r.random() < .5:
        m.put(m.req, 'Prefer', ['depth-noroot', 'return=minimal'])
    if status == 207:
        m.respond(207, body=False, headers=hs)
        m.body(m.final, kinds=['xml'])
    else:
        if status == 201 and r.random() < .5:
            hs.append(('Location', '/other/'))
        m.respond(status, headers=hs)


def delta(m):
    m.request('GET')
    m.put(m.req, 'A-IM', 'vcdiff, gzip')
    m.put(m.req, 'If-None-Match', ['"old"'])
    m.respond(226, headers=[('ETag', '"new"'), ('IM', 'vcdiff'),
                            ('Delta-Base', '"old"')])


def upgrade(m):
    """101"""
    r, s = m.rng, m.say
    m.version = 'HTTP/1.1'
    m.request(r.choice(['GET', 'GET', 'OPTIONS', 'POST']))
    q = m.req
    what = r.choice(['websocket', 'h2c', 'foo', 'TLS/1.0, HTTP/1.1'])
    if what == 'h2c':
        m.tls = False
        m.put(q, 'HTTP2-Settings', r.choice(['AAMAAABkAARAAAAAAAIAAAAA',
                                             'AAQ_-_8A']))
        m.option(q, s.case('HTTP2-Settings'))
    whats = what.split(', ')
    m.put(q, 'Upgrade', whats + r.choice([[], ['bar/1'], ['bar']]))
    m.option(q, s.case('upgrade'))
    if q['body'] and r.random() < .5:
        m.put(q, 'Expect', '100-continue')
        m.interim.append({'status': 100, 'headers': []})
    m.final['options'] = [s.case('Upgrade')]
    m.respond(101, headers=[('Upgrade', whats)])
    if what == 'websocket':
        m.put(q, 'Sec-WebSocket-Key', 'dGhlIHNhbXBsZSBub25jZQ==')
        m.put(q, 'Sec-WebSocket-Version', '13')
        m.put(m.final, 'Sec-WebSocket-Accept', 's3pPLMBiTxaQ9kYGzzhZRbK+xOo=')
    m.tags.add('upgrade ' + what)


def need_upgrade(m):
    m.version = 'HTTP/1.1'
    m.request('GET')
    m.final['options'] = ['upgrade']
    m.respond(426, headers=[('Upgrade', ['HTTP/3.0', 'foo'])])


def connect(m):
    m.request('CONNECT', body=False)
    m.path = m.target = 'server.example:443'
    m.host = m.target
    m.tls = False
    status = m.rng.choice([200, 200, 204, 299, 403, 407, 502])
    if m.rng.random() < .3:
        m.credentials(m.req, 'Proxy-Authorization')
    if m.rng.random() < .2:
        m.put(m.req, 'ALPN', 'h2, http%2F1.1')
    hs = []
    if status == 407:
        hs = [('Proxy-Authenticate', ['Basic realm="x"'])]
    m.respond(status, headers=hs)


def options(m):
    m.request('OPTIONS', body=m.rng.random() < .2)
    m.respond(m.rng.choice([200, 204]))
    if m.rng.random() < .7:
        allow = ['GET', 'HEAD', 'OPTIONS', 'POST', 'PATCH']
        m.put(m.final, 'Allow', allow)
        m.put(m.final, 'Accept-Patch', ['text/x-diff'])
        if m.rng.random() < .5:
            m.put(m.final, 'Accept-Post', ['image/*'])


def server_options(m):
    m.path = m.target = '*'
    m.request('OPTIONS', body=False)
    m.respond(m.rng.choice([200, 204]))


def trace(m):
    m.request('TRACE', body=False)
    m.respond(200, body=False)
    m.put(m.final, 'Content-Type', 'message/http')
    m.final['body'] = b'TRACE / HTTP/1.1\r\nHost: a\r\n\r\n'


def via_proxy(m):
    m.version = m.rng.choice(['HTTP/1.1', 'HTTP/1.1', 'HTTP/1.0'])
    m.tls = False
    m.request(m.rng.choice(['GET', 'POST', 'HEAD', 'PUT']))
    m.target = 'http://' + m.host + m.path
    m.proxy = True
    status = m.rng.choice([200, 200, 404, 407, 502, 504, 203, 204])
    hs = []
    if status == 407:
        hs.append(('Proxy-Authenticate', ['Basic realm="x"', 'NTLM']))
    elif m.rng.random() < .5:
        m.credentials(m.req, 'Proxy-Authorization')
    if 200 <= status < 300 or m.rng.random() < .5:
        hs.append(('Via', [m.via()]))
    if status == 203:
        hs.append(('Cache-Control', ['max-age=5']))
        hs.append(('Warning', ['214 proxy.example "Transformation applied"']))
    m.respond(status, headers=hs)


def hints(m):
    """1xx before the response"""
    r = m.rng
    if m.version == 'HTTP/1.0':
        m.version = 'HTTP/1.1'
    m.request(r.choice(['GET', 'POST', 'PROPFIND']))
    for _ in range(r.randint(1, 3)):
        k = r.choice([103, 103, 102])
        i = {'status': k, 'headers': []}
        if k == 103:
            m.put(i, 'Link', m.links())
            if r.random() < .3:
                m.put(i, 'Content-Type', 'text/html')
            if r.random() < .2:
                m.put(i, 'Content-Security-Policy', "default-src 'self'")
        m.interim.append(i)
    m.respond(200)
    m.tags.add('hints')


def legal(m):
    m.request('GET')
    m.respond(451, headers=[('Link', m.links('"blocked-by"'))])


def network_login(m):
    m.request('GET')
    m.tls = False
    m.respond(511)


def cached(m):
    """From a cache: Age means not validated"""
    r, s = m.rng, m.say
    m.request(r.choice(['GET', 'GET', 'HEAD']))
    q = m.req
    kind = r.choice(['fresh', 'fresh', 'expires', 'stale', 'heuristic',
                     'offline'])
    m.tags.add('cached ' + kind)
    status = r.choice([200, 200, 200, 300, 301, 404, 410, 414, 501, 405])
    age = r.choice([1, 5, 60, 3600, 10 ** 5])
    m.age = age
    hs = [('Age', str(age))]
    if status == 301:
        hs.append(('Location', '/moved'))
    if status == 405:
        hs.append(('Allow', ['POST']))
    if kind == 'fresh':
        life = age + r.choice([100, 10 ** 4])
        cc = ['max-age=%d' % life]
        if status in (200, 404) and r.random() < .3:
            status = r.choice([302, 307, 403, status])  # explicitly fresh
            if status in (302, 307):
                hs.append(('Location', '/moved'))
        cc += m.some(['public', 'must-revalidate', 'foo'], 0, 1)
        hs.append(('Cache-Control', cc))
        if r.random() < .3:
            m.put(q, 'Cache-Control', m.some([
                'max-age=%d' % (age + r.choice([0, 10])), 'no-transform'], 1, 2)
                + r.choice([[], ['min-fresh=%d' % r.randint(0, 90)]]))
        elif r.random() < .2:
            m.put(q, 'Cache-Control', ['only-if-cached'])
    elif kind == 'expires':
        hs.append(('Expires', ago(-r.choice([1000, 10 ** 6]))))
        if r.random() < .3:
            hs.append(('Cache-Control', ['public']))
    elif kind in ('stale', 'offline'):
        if status not in (200, 300, 301, 404, 410):
            status = 200
        if not any(k == 'Location' for k, _ in hs) and status == 301:
            hs.append(('Location', '/moved'))
        hs = [h for h in hs if h[0] != 'Allow']
        life = r.randint(0, age - 1)
        how = r.choice(['max-stale', 'max-stale=', 'while', 'error'])
        cc = ['max-age=%d' % life]
        ws = ['110 - "Response is stale"']
        if kind == 'offline':
            ws.append(r.choice(['112 - "Disconnected operation"',
                                '111 fred "Revalidation failed"']))
        elif how == 'max-stale':
            m.put(q, 'Cache-Control', ['max-stale'])
        elif how == 'max-stale=':
            m.put(q, 'Cache-Control', ['max-stale=%d' % (2 * 10 ** 5)])
        elif how == 'while':
            cc.append('stale-while-revalidate=%d' % (2 * 10 ** 5))
        else:
            cc.append('stale-if-error=%d' % (2 * 10 ** 5))
        hs.append(('Cache-Control', cc))
        hs.append(('Warning', ws))
    else:
        hs.append(('Last-Modified', ago(10 ** 8)))
        ws = []
        if age > 86400 or r.random() < .3:
            ws.append('113 - "Heuristic expiration"')
        if ws:
            hs.append(('Warning', ws))
        if r.random() < .3:
            hs.append(('Cache-Control', ['public']))
    m.respond(status, headers=hs)


def token_in_form(m):
    m.request('POST', body=False)
    m.tls = True
    m.put(m.req, 'Content-Type', 'application/x-www-form-urlencoded')
    m.req['body'] = m.req['plain'] = b'access_token=abc&x=y'
    m.req['wants body'] = True
    m.respond(200)


def preferred(m):
    r = m.rng
    m.request(r.choice(['POST', 'PUT', 'PATCH', 'PROPFIND', 'DELETE']))
    k, status = r.choice([('return=minimal', 204), ('return=minimal', 200),
                          ('return=representation', 200),
                          ('handling=lenient', 200), ('wait=10', 200),
                          ('respond-async', 202), ('return="minimal"', 204)])
    if m.req['method'] == 'PROPFIND' and k == 'respond-async':
        k, status = 'return=minimal', 207
    m.put(m.req, 'Prefer', [k, 'foo=bar;baz="q"'])
    m.respond(status, headers=[('Preference-Applied', r.choice(
        [k, m.say.case(k.partition('=')[0]) + k[len(k.partition('=')[0]):]]))])


def immutable(m):
    m.request('GET')
    m.tls = True
    m.respond(200, headers=[('Cache-Control', ['max-age=31536000', 'immutable'])])


SCENARIOS = [plain] * 6 + [
    created, accepted, reset, redirect, redirect, see_self, not_modified,
    not_modified, modified, failed_precondition, kept_precondition,
    written, written, unsupported_type_of_nothing,
    need_precondition, part, part, part, whole_instead, unsatisfiable,
    unauthorized, unauthorized, not_allowed, not_acceptable, timeout, conflict,
    no_length, too_large, unsupported_patch, failed_expectation, misdirected,
    webdav, webdav, delta, upgrade, upgrade, need_upgrade, connect, options,
    server_options, trace, via_proxy, via_proxy, hints, hints, legal,
    network_login, cached, cached, cached, cached, token_in_form, preferred,
    preferred, immutable]


def exchange(rng, scenario=None):
    while True:
        m = Maker(rng)
        m.path = m.say.path() + m.say.query()
        f = scenario or rng.choice(SCENARIOS)
        m.tags.add(f.__name__)
        f(m)
        if m.final['status'] in (101, 426) and m.version != 'HTTP/1.1':
            continue
        if m.proxy and m.version == 'HTTP/2':
            continue
        m.neutral_response()
        m.neutral_request()
        if m.version == 'HTTP/1.0' and m.interim:
            continue
        return m.finish()


# -- on the wire

def stream(rng, specs):
    """The two streams of a connection with these exchanges."""
    inb, outb = b'', b''
    for spec in specs:
        q = spec['req']
        inb += wire.head('%s %s %s' % (q['method'], q['target'], q['version']),
                         q['headers'], rng) + framed(q, rng)
        for p in spec['resps']:
            outb += wire.head('%s %d %s' % (p['version'], p['status'],
                                            p['reason']), p['headers'], rng)
            if q['method'] != 'HEAD' and p['status'] >= 200 and \
                    p['status'] not in (204, 304) and not (
                        q['method'] == 'CONNECT' and p['status'] < 300):
                outb += framed(p, rng)
    return inb, outb


def framed(m, rng):
    te = b','.join(v for k, v in m['headers']
                   if k.lower() == 'transfer-encoding').lower()
    if not te:
        return m['body']
    data = m['body']
    for c in te.replace(b' ', b'').replace(b'\t', b'').split(b','):
        if c != b'chunked':
            data = wire.compress(c.decode(), data)
    return wire.chunked(data, m['trailers'], rng)
