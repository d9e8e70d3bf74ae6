"""C28: helpers convert headers without losing or inventing any."""

import collections
import io
import types
import wsgiref.simple_server

import httpolice
from httpolice import helpers
from httpolice.structure import HeaderEntry
from vp import gen, hp, wire

PID = 'C28'
RULE = ('headers_from_cgi is called with environments of every kind (plain '
        'and exotic mappings; header variables among look-alikes such as '
        'HTTPS, HTTP, CONTENT_MD5, http_foo, X_HTTP_FOO; empty, byte, '
        'character and non-string values; in any order) and must return '
        'exactly one entry per header variable, its name spelled with dashes '
        '(in any case), its value as bytes, Host first, the mapping '
        'unchanged (shard cgi). Requests with random headers are also passed '
        'through the WSGI server of the standard library, and what comes out '
        'must be what was sent and be judged alike (shard wsgi). '
        'pop_pseudo_headers is called with lists of any order, duplication '
        'and entry type: it must take out all names with a leading colon and '
        'only them, leave the very same other entries in order in the same '
        'list, and return just what it took out (shard pseudo). Non-trivial: '
        'an input with both kinds of things.')
ASSUMPTIONS = ['a non-empty name follows HTTP_',
               'of pseudo-headers of the same name, either may be returned',
               'characters beyond ISO-8859-1 cannot be in a header, so what '
               'becomes of them is not judged']


def plan(tier):
    k = 1 if tier == 'quick' else 20
    return [('cgi', 8000 * k, 500), ('wsgi', 2000 * k, 100),
            ('pseudo', 8000 * k, 500)]


def REQUIRE(tier):
    return {'cgi': 8000, 'entries': 20000, 'look-alikes': 10000,
            'empty content': 800, 'empty value': 800, 'host not first': 1500,
            'not strings': 500, 'bytes': 2000, 'mapping': 1500,
            'latin-1': 1500, 'wsgi': 1800, 'wsgi notices': 1500,
            'pseudo': 8000, 'removed': 8000, 'kept': 20000,
            'adjacent pseudo': 3000, 'last pseudo': 1500, 'duplicates': 1500,
            'inner colon': 1500}


NOT_HEADERS = [
    'REQUEST_METHOD', 'SCRIPT_NAME', 'PATH_INFO', 'QUERY_STRING',
    'SERVER_NAME', 'SERVER_PORT', 'SERVER_PROTOCOL', 'HTTPS', 'HTTP',
    'HTTP2', 'HTTPD_FOO', 'http_foo', 'X_HTTP_FOO', 'HTTP-FOO', 'Http_Foo',
    'CONTENT_MD5', 'CONTENT_ENCODING', 'CONTENT', 'CONTENT_LENGTH_X',
    'content_type', 'X_CONTENT_TYPE', 'HOST', 'HTTP.FOO', 'wsgi.input',
    'wsgi.version', 'REMOTE_ADDR', 'REMOTE_USER', 'AUTH_TYPE', 'PATH', '',
    'REDIRECT_HTTP_HOST', 'GATEWAY_INTERFACE', 'ACCEPT', 'SSL_HTTP_', '_HTTP_X',
    'CONTENT_TYPE ', ' HTTP_FOO', 'HTTPPOLICE', 'HTTP FOO', 'H', 'SERVER_HTTP_']
VALUES = ['foo', '', 'a, b', '"x"', '0', ' ', 'caf\xe9', '\xff\x80', 'a=b; c=d',
          'example.com', '12', 'gzip', '*', 'http://x/', 'a\tb', 'None', ':',
          'text/plain', 'x' * 2000, 'HTTP_FOO', '=?', '\\']


class Exotic(collections.abc.Mapping):

    def __init__(self, items):
        self.d = dict(items)

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


def value(rng, rec):
    r = rng.random()
    s = rng.choice(VALUES)
    if r < .75:
        rec.count('latin-1', not s.isascii())
        return s, s.encode('latin-1')
    if r < .92:
        rec.count('bytes')
        return s.encode('latin-1'), s.encode('latin-1')
    rec.count('not strings')
    x = rng.choice([0, 5, 12, None, True, False, 1.5, [], ('a',)])
    return x, str(x).encode('latin-1')


def names(rng):
    known = ['HTTP_' + n.upper().replace('-', '_') for n in gen.HEADERS]
    r = rng.random()
    if r < .6:
        return rng.choice(known)
    if r < .8:
        return rng.choice(['HTTP_HTTP_FOO', 'HTTP_X', 'HTTP_X_FORWARDED_FOR',
                           'HTTP_A_B_C_D', 'HTTP_FOO', 'HTTP_HTTPS',
                           'HTTP_HTTP', 'HTTP_DNT', 'HTTP_X1_2Y', 'HTTP_HTTP2_'
                           'SETTINGS', 'HTTP_HOSTS', 'HTTP_HOST_NAME',
                           'HTTP_CONTENT_LENGTHS', 'HTTP_CONTENT_MD5',
                           'HTTP_X_HOST', 'HTTP_X_CONTENT_TYPE',
                           'HTTP_X_HTTP_METHOD', 'HTTP_ETAG', 'HTTP_TE'])
    return 'HTTP_' + '_'.join(
        ''.join(rng.choice('ABCXYZ019') for _ in range(rng.randint(1, 5)))
        for _ in range(rng.randint(1, 4)))


def cgi(rng, rec):
    items = []
    for n in rng.sample(NOT_HEADERS, rng.choice([0, 1, 3, 8, 20])):
        items.append((n, value(rng, rec)))
        rec.count('look-alikes')
    for n in {names(rng) for _ in range(rng.choice([0, 1, 2, 5, 15]))}:
        items.append((n, value(rng, rec)))
    for n, p in (('HTTP_HOST', .6), ('CONTENT_LENGTH', .5),
                 ('CONTENT_TYPE', .5)):
        if rng.random() < p and n not in dict(items):
            v = value(rng, rec)
            if rng.random() < .3:
                v = rng.choice([('', b''), (b'', b''), (None, b'None')])
            items.append((n, v))
    rng.shuffle(items)
    want = collections.Counter()
    for n, (v, b) in items:
        if n.startswith('HTTP_'):
            want[n[5:].replace('_', '-').lower(), b] += 1
            rec.count('empty value', not b)
        elif n in ('CONTENT_LENGTH', 'CONTENT_TYPE'):
            # (servers have them empty if there are no such headers)
            rec.count('empty content', not v)
            if v or v == 0 and v is not False:
                if v == 0:
                    b = None        # either is fine
                want[n.replace('_', '-').lower(), b] += 1
    d = collections.OrderedDict((n, v) for n, (v, _) in items)
    before = list(d.items())
    how = rng.choice(['dict', 'dict', 'ordered', 'exotic', 'proxy'])
    rec.count('mapping', how in ('exotic', 'proxy'))
    arg = {'dict': dict, 'ordered': lambda x: x, 'exotic': Exotic,
           'proxy': types.MappingProxyType}[how](d)
    got = helpers.headers_from_cgi(arg)
    data = {'environ': repr(before), 'result': repr(got)}
    if list(arg.items()) != before:
        rec.fail('cgi:changed', 'the environment was changed', data)
    if not isinstance(got, list) or not all(
            isinstance(n, str) and isinstance(v, bytes) for n, v in got):
        rec.fail('cgi:types', 'not a list of names and byte strings', data)
        return
    seen = collections.Counter((n.lower(), v) for n, v in got)
    for n in ('content-length', 'content-type'):    # CONTENT_LENGTH = 0
        if (n, None) in want:
            del want[n, None]
            seen.pop((n, b'0'), None)
    if seen != want:
        rec.fail('cgi:entries', 'lost %r, invented %r' % (
            sorted((want - seen).elements())[:3],
            sorted((seen - want).elements())[:3]), data)
    if d.get('HTTP_HOST') and (not got or got[0][0].lower() != 'host'):
        rec.fail('cgi:host', 'Host does not come first', data)
    rec.count('host not first',
              bool(d.get('HTTP_HOST')) and items[0][0] != 'HTTP_HOST')
    # What is passed on can be checked, without trouble about names.
    req = httpolice.Request('http', 'GET', '/', 'HTTP/1.1', got, b'')
    if [(str(e.name), e.value) for e in req.header_entries] != got:
        rec.fail('cgi:request', 'not usable for a request', data)
    rec.count('cgi')
    rec.count('entries', len(got))
    if want and len(d) > len(want):
        rec.nontrivial(('cgi', repr(sorted(want.elements()))))


# -- a real WSGI server

class Socket:

    def __init__(self, data):
        self.data = data

    def makefile(self, *_):
        return io.BytesIO(self.data)

    def sendall(self, data):
        pass


class Server:
    base_environ = {'SERVER_NAME': 'x', 'SERVER_PORT': '80',
                    'GATEWAY_INTERFACE': 'CGI/1.1', 'REMOTE_HOST': '',
                    'CONTENT_LENGTH': '', 'SCRIPT_NAME': ''}

    def get_app(self):
        def app(environ, start):
            self.environ = dict(environ)
            start('200 OK', [])
            return []
        return app


class Handler(wsgiref.simple_server.WSGIRequestHandler):

    def log_message(self, *_):
        pass

    def address_string(self):
        return 'x'


def wsgi(rng, rec):
    spec = gen.request(rng, 0)
    hs = []
    for n, v in spec['headers']:
        # (what the server would change itself: repeated and folded headers)
        if n.lower() not in {k.lower() for k, _ in hs} and \
                wire.gen.clean_value(v) == v and v and b'\0' not in v and \
                not set(v) & {0x1c, 0x1d, 0x1e, 0x85, 0x0b, 0x0c} and \
                all(c.isalnum() or c == '-' for c in n) and n.isascii() and \
                n.lower() not in ('connection', 'expect'):
            hs.append((n, v))
    low = {n.lower() for n, _ in hs}
    if 'content-type' not in low:       # the server would invent one
        hs.append(('Content-Type', b'text/plain'))
    line = b'POST / HTTP/1.1\r\n'
    data = line + b''.join(n.encode() + b': ' + v + b'\r\n' for n, v in hs) + \
        b'\r\n'
    server = Server()
    import sys
    err, sys.stderr = sys.stderr, io.StringIO()
    try:
        Handler(Socket(data), ('127.0.0.1', 5), server)
    finally:
        sys.stderr = err
    if not hasattr(server, 'environ'):
        rec.count('refused by the server')
        return
    got = helpers.headers_from_cgi(server.environ)
    want = sorted((n.lower(), v) for n, v in hs)
    if sorted((n.lower(), v) for n, v in got) != want:
        rec.fail('wsgi:entries', 'the headers of the request did not come out',
                 {'sent': hs, 'got': got})
        return
    rec.count('wsgi')

    def judged(headers):
        req = hp.req('POST', '/', headers, b'')
        return set(hp.ids(hp.check({'req': req, 'resps': []}).request)) - \
            {1032}
    for _ in range(3):
        a, b = judged(hs), judged(got)
        if a == b:
            break
    if a != b:
        rec.fail('wsgi:notices', 'judged differently: %r' % sorted(a ^ b),
                 {'sent': hs, 'got': got})
    rec.count('wsgi notices', bool(a))
    rec.nontrivial(('wsgi', repr(want)))


# -- pseudo-headers

PSEUDO = [':method', ':path', ':scheme', ':authority', ':status', ':', '::',
          ':protocol', ':foo', ':Path', ': ', ':a b', ':x:y', ':caf\xe9']
REGULAR = ['Host', 'Cookie', 'x:y', 'foo:', ' :foo', '', 'method', 'path',
           'X-Foo', 'a', '-:', 'Status', 'caf\xe9', '\uff1afoo', ';foo', 'host',
           '%3Afoo', '"' ':path"']


def pseudo(rng, rec):
    n = rng.choice([0, 1, 2, 3, 5, 8, 20, 60])
    share = rng.choice([0, .2, .5, .8, 1])
    entries = []
    while len(entries) < n:
        name = rng.choice(PSEUDO if rng.random() < share else REGULAR)
        v = rng.choice(VALUES)
        v = v if rng.random() < .5 else v.encode('latin-1')
        kind = rng.choice([tuple, tuple, list, None])
        e = HeaderEntry(name, v if isinstance(v, bytes) else
                        v.encode('latin-1')) if kind is None else \
            kind((name, v))
        entries += [e] * rng.choice([1, 1, 1, 1, 2])
    copy = list(entries)
    text = repr(copy)
    got = helpers.pop_pseudo_headers(entries)
    data = {'entries': text, 'returned': repr(got), 'left': repr(entries)}
    want = [e for e in copy if e[0][:1] == ':']
    left = [e for e in copy if e[0][:1] != ':']
    if len(entries) != len(left) or any(a is not b for a, b in
                                        zip(entries, left)):
        rec.fail('pseudo:left', 'wrong headers are left', data)
    if set(got) != {e[0] for e in want} or any(
            all(v is not e[1] and (v != e[1] or type(v) is not type(e[1]))
                for e in want if e[0] == k) for k, v in got.items()):
        rec.fail('pseudo:taken', 'wrong headers are returned', data)
    if repr(copy) != text:
        rec.fail('pseudo:changed', 'entries were changed', data)
    if helpers.pop_pseudo_headers(entries) or len(entries) != len(left):
        rec.fail('pseudo:again', 'a second time, there is more', data)
    rec.count('pseudo')
    rec.count('removed', len(want))
    rec.count('kept', len(left))
    rec.count('adjacent pseudo', any(a[0][:1] == b[0][:1] == ':' for a, b in
                                     zip(copy, copy[1:])))
    rec.count('last pseudo', bool(copy) and copy[-1][0][:1] == ':')
    rec.count('duplicates', len({e[0] for e in want}) < len(want))
    rec.count('inner colon', any(':' in e[0][1:] for e in left))
    if want and left:
        rec.nontrivial(('pseudo', text))


def case(shard, i, rng, rec):
    {'cgi': cgi, 'wsgi': wsgi, 'pseudo': pseudo}[shard](rng, rec)
