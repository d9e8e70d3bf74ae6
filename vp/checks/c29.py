"""C29: knowledge of protocol elements is right and uniformly applied."""

import html.parser
import io
import json
import os
import re

from vp import gen, hp, textrep
from vp.ref import rules, values
from vp.ref.values import HEADERS, REG

PID = 'C29'
RULE = ('Every registered element is put, in several letter cases, into every '
        'context in which something is assumed about it: headers in requests, '
        'responses, trailers, Connection and Trailer options, with every kind '
        'of method and status that singles out a class of headers, repeated '
        'and malformed; methods with and without bodies under statuses and '
        'versions; all statuses from 100 to 599 under methods and freshness '
        'information; media types on malformed JSON and XML, on PATCH; cache '
        'directives, HSTS directives, preferences, parameters of Forwarded and '
        'Alt-Svc with all forms of arguments in requests and responses; '
        'products; unknown neighbours of all of them. What is reported must '
        'be what the frozen and reviewed table (vp/ref/registry.json) implies '
        'by the rules in vp/ref/rules.py; links and titles in the HTML report '
        'and reason phrases in the text report must be the documented ones '
        '(vp/ref/cites.json). Non-trivial: a notice is due.')
ASSUMPTIONS = ['vp/ref/registry.json and vp/ref/cites.json are right']
with open(os.path.join(os.path.dirname(__file__), '..', 'ref',
                       'cites.json')) as _f:
    CITES = json.load(_f)
PAYLOAD = {1036, 1037, 1038, 1039, 1040, 1139, 1140, 1275, 1281}
KNOWN = set().union(*rules.AREAS.values()) | {1000}
NAMES = sorted(REG['header'])
METHODS = sorted(REG['method'])
STATUSES = list(range(100, 600))
MEDIA = sorted(REG['media_type'])
PRODUCTS = sorted(REG['product'])
DIRECTIVES = [(k, d) for k in ('cache_directive', 'hsts_directive',
                               'preference', 'forwarded_param',
                               'alt_svc_param') for d in sorted(REG[k])]


def plan(tier):
    k = 1 if tier == 'quick' else 12
    return [('header', len(NAMES) * 3 * k, 60),
            ('header unknown', 200 * k, 40),
            ('method', len(METHODS) * 3 * k, 20),
            ('status', len(STATUSES) * k, 30),
            ('media', len(MEDIA) * k, 60),
            ('directive', len(DIRECTIVES) * 6 * k, 30),
            ('product', len(PRODUCTS) * 3 * k, 40),
            ('cites', 6 * k, 1)]


def REQUIRE(tier):
    r = {'exchanges': 25000, 'links': 3000, 'reasons': 100,
         'unknown elements': 2000}
    for n in (1013, 1026, 1034, 1052, 1053, 1063, 1064, 1090, 1131, 1130, 1125,
              1146, 1200, 1197, 1277, 1000, 1127,
              1282, 1038, 1039, 1213, 1152, 1153, 1154, 1155, 1156, 1157,
              1158, 1299, 1300):
        r['due %d' % n] = 5
    return r


def case(shard, i, rng, rec):
    {'header': header, 'header unknown': header_unknown, 'method': method,
     'status': status, 'media': media, 'directive': directive,
     'product': product, 'cites': cites}[shard](i, rng, rec)


def spelling(i, name, rng):
    """Another letter case in every round."""
    return [name, name.lower(), name.upper(), name.title(),
            ''.join(rng.choice([c.lower(), c.upper()]) for c in name)][
                i % 5 if i < 3 else rng.randrange(5)]


def neighbour(name, rng):
    """A name that looks much like this one."""
    for _ in range(20):
        r = rng.random()
        k = rng.randrange(len(name) + 1)
        if r < .25:
            s = name + rng.choice('sxX1-_')
        elif r < .4:
            s = rng.choice(['X-', 'x-', 'Foo-', 'x']) + name
        elif r < .6:
            s = name.replace('-', rng.choice(['_', '']), 1)
        elif r < .8:
            s = name[:k] + name[k + 1:]
        else:
            s = name[:k] + rng.choice('aexz-') + name[k:]
        if s and s.lower() != name.lower():
            return s
    return name + 'x'


def judged(spec, what, rec, n=None):
    """All notices that depend on knowledge are those that should be."""
    try:
        req, resps = rules.judge(spec)
    except values.Unsure:
        rec.count('not judged')
        return
    for attempt in (1, 2):
        exch = hp.check(spec)
        wrong = []
        pairs = ([(exch.request, req)] if req else []) + \
            list(zip(exch.responses, resps))
        for obj, m in pairs:
            got = {x.id for x in obj.notices}
            wrong += [('missed', n) for n in sorted((m.must & KNOWN) - got)]
            wrong += [('extra', n)
                      for n in sorted((got & KNOWN) - m.must - m.may)]
        if not wrong:
            break
        req, resps = rules.judge(spec)
    rec.count('exchanges')
    for kind, n in wrong:
        rec.fail('%s %d' % (kind, n), '%s: %d %s' % (
            what, n, 'is not reported' if kind == 'missed' else
            'is reported'), spec)
    due = set()
    for m in ([req] if req else []) + resps:
        due |= m.must
    for n in due:
        rec.count('due %d' % n)
    if due:
        rec.nontrivial((what, tuple(sorted(due))))


def value_for(name, rng, bad=False):
    info = HEADERS.get(name.lower(), {})
    spell = info.get('name', name)
    if info.get('rule') is None:
        return rng.choice([b'x', b'1', b'a b', b'"'])
    for _ in range(40):
        if bad:
            v = gen.clean_value(rng.choice([
                lambda: b'"', lambda: b'a b;', lambda: b'(', lambda: b'\x01',
                lambda: gen.mutate(gen.nice_value(spell, rng), rng)])())
        else:
            v = gen.clean_value(gen.nice_value(spell, rng))
        if (values.parse(name, v) is None) == bad:
            return v
    return None


def message(kind, rng, hs, **kw):
    """A plain message around these headers."""
    if kind == 'req':
        return hp.req(headers=[('Host', b'example.com'),
                               ('User-Agent', b'foo/1')] + hs, **kw)
    return hp.resp(headers=[('Date', gen.imf(gen.BASE))] + hs, **kw)


def uses(name, rng):
    """Exchanges with this header wherever it matters."""
    v = value_for(name, rng)
    if v is None:
        v = b'x'
    w = value_for(name, rng) or v
    bad = value_for(name, rng, bad=True)
    h = [(name, v)]

    def q(hs=h, **kw):
        return message('req', rng, list(hs), **kw)

    def r(hs=(), **kw):
        return message('resp', rng, list(hs), **kw)

    def ex(a, *b):
        return {'req': a, 'resps': list(b) or [r()]}
    low = name.lower()
    yield 'request', ex(q())
    yield 'response', ex(q([]), r(h))
    yield 'request and response', ex(q(), r([(name, w)]))
    yield 'HTTP/1.0', ex(q(version='HTTP/1.0'), r(h, version='HTTP/1.0'))
    yield 'HTTP/2', ex(q(version='HTTP/2'), r(h, version='HTTP/2'))
    yield 'twice', ex(q(h + [(name, w)]), r([(name, w)] + h))
    if bad is not None:
        yield 'malformed', ex(q([(name, bad)]), r([(name, bad)]))
        yield 'malformed and not', ex(q([(name, bad)] + h), r(h + [(name, bad)]))
    ch = [('Transfer-Encoding', b'chunked')]
    if low != 'transfer-encoding':
        tr = ch + [('Trailer', name.encode())]
        yield 'trailer', ex(
            q(tr, method='POST', body=b'x', trailers=h),
            r(tr, body=b'x', trailers=[(name, w)]))
        yield 'undeclared trailer', ex(
            q(ch, method='POST', body=b'x', trailers=h),
            r(ch, body=b'x', trailers=h))
    conn = [('Connection', rng.choice([name, 'foo, ' + name,
                                       name + ', close']).encode())]
    yield 'connection', ex(q(conn + h), r(h + conn))
    yield 'only in Connection', ex(q(conn), r(conn))
    for m in ('HEAD', 'OPTIONS', 'CONNECT', 'TRACE', 'DELETE', 'PUT', 'FOO',
              'PROPFIND', 'PATCH'):
        yield m, ex(q(method=m, target='example.com:80' if m == 'CONNECT'
                      else '/'), r(h if rng.random() < .5 else []))
    yield 'PUT with body', ex(q(h + [('Content-Length', b'1')] if
                                low != 'content-length' else h,
                                method='PUT', body=b'x'))
    for s in (100, 101, 102, 103):
        yield '%d' % s, ex(q([]), r(h, status=s), r())
    for s in (201, 204, 205, 206, 300, 301, 304, 400, 401, 405, 406, 407, 411,
              412, 413, 415, 416, 417, 426, 428, 429, 500, 503, 511):
        yield '%d' % s, ex(q(h if rng.random() < .8 else []),
                           r(h if rng.random() < .5 else [], status=s))
    yield '304 with validator', ex(q([('If-None-Match', b'"a"')]),
                                   r([('ETag', b'"a"')] + h
                                     if low != 'etag' else h, status=304))
    yield '206 to If-Range', ex(q([('Range', b'bytes=0-0'),
                                   ('If-Range', b'"a"')]),
                                r([('ETag', b'"a"'),
                                   ('Content-Range', b'bytes 0-0/9')] + h,
                                  status=206, body=b'x'))
    yield 'no request', {'req': None, 'resps': [r(h)]}


def header(i, rng, rec):
    name = NAMES[i % len(NAMES)]
    if name == 'HTTPolice-Silence':
        return
    s = spelling(i // len(NAMES), name, rng)
    for what, spec in uses(s, rng):
        judged(spec, '%s: %s' % (s, what), rec)


def header_unknown(i, rng, rec):
    name = neighbour(rng.choice(NAMES), rng)
    if name.lower() == 'httpolice-silence':
        return
    if name.lower() not in HEADERS:
        rec.count('unknown elements')
    for what, spec in uses(name, rng):
        judged(spec, '%s: %s' % (name, what), rec)


def method(i, rng, rec):
    """What is known about the method"""
    name = METHODS[i % len(METHODS)]
    k = i // len(METHODS)
    if k % 3 == 1:
        name = rng.choice([name.lower(), name.title()])
    elif k % 3 == 2:
        name = neighbour(name, rng)
        if not values.TOKEN.fullmatch(name):
            name = 'FOO'
    if name not in REG['method']:
        rec.count('unknown elements')
    for version in ('HTTP/1.1', 'HTTP/1.0', 'HTTP/2'):
        for body, st in [(b'', 200), (b'', 304), (b'x', 200), (b'', 301),
                         (b'', 412), (b'', 100), (b'', 206), (b'', 201),
                         (b'', 405), (b'', 303), (b'', 204), (b'', 202),
                         (b'', 302), (b'', 501), (b'', 307), (b'', 400)]:
            hs = [('Content-Length', b'1'), ('Content-Type', b'foo/bar')] \
                if body else []
            if rng.random() < .3:
                hs.append(rng.choice([('If-None-Match', b'*'),
                                      ('Range', b'bytes=0-1'),
                                      ('If-Modified-Since', gen.imf(gen.BASE)),
                                      ('Content-Length', b'0'),
                                      ('Max-Forwards', b'1'),
                                      ('Cache-Control', b'max-age=1')]))
            ok = rng.random() < .5
            rh = rng.choice([
                [], [('Cache-Control', b'max-age=10')], [('Age', b'5')],
                [('Last-Modified', gen.imf(gen.BASE))],
                [('Location', b'/x')], [('Content-Location', b'/')],
                [('Accept-Patch', b'foo/bar')], [('ETag', b'"a"')],
                [('Allow', b'GET, ' + name.encode() if ok else b'GET')]])
            spec = {'req': message('req', rng, hs, method=name, body=body,
                                   version=version, target='example.com:1'
                                   if name == 'CONNECT' else '/'),
                    'resps': [message('resp', rng, rh, status=st,
                                      version=version)]}
            judged(spec, '%s %s %d' % (name, version, st), rec)


def status(i, rng, rec):
    """What is known about the status"""
    st = STATUSES[i % len(STATUSES)]
    title = CITES['status_code'].get(str(st), [None])[0]
    if title is None:
        rec.count('unknown elements')
    for m in ('GET', 'POST', 'HEAD', 'PUT', 'DELETE', 'FOO'):
        for rh in ([], [('Age', b'5')], [('Cache-Control', b'max-age=10')],
                   [('Cache-Control', b'public')],
                   [('Last-Modified', gen.imf(gen.BASE))],
                   [('Warning', b'113 - "x"')], [('ETag', b'"a"')],
                   [('Age', b'900000'), ('Last-Modified', gen.imf(gen.BASE))],
                   [('Cache-Control', b'no-store')],
                   [('Expires', gen.imf(gen.BASE))], [('Location', b'/')]):
            if rng.random() < .5:
                continue
            body = b'x' if m not in ('HEAD',) and st // 100 != 1 and \
                st not in (204, 304) and rng.random() < .5 else b''
            spec = {'req': message('req', rng, [], method=m),
                    'resps': [message('resp', rng, rh, status=st, body=body,
                                      reason=rng.choice(['', 'OK', 'foo']))]}
            judged(spec, '%d to %s' % (st, m), rec)
    # and its name
    exch = hp.check({'req': hp.req(headers=[('Host', b'a')]),
                     'resps': [hp.resp(st, [('Date', b'x')], b'',
                                       reason=None)]})
    sec = textrep.read(hp.report('text', [exch]))[0]['responses'][0]
    want = '%s response: %d %s' % (textrep.MARK, st, title or '(unknown)')
    rec.count('reasons')
    if sec['marker'] != want:
        rec.fail('reason', 'response %d is called %r, not %r' % (
            st, sec['marker'], want), st)


def media(i, rng, rec):
    """What is known about the media type"""
    name = MEDIA[i % len(MEDIA)]
    names = [name, spelling(i // len(MEDIA) + 2, name, rng),
             neighbour(name, rng),
             rng.choice(['application/', 'text/', 'foo/']) +
             neighbour(name, rng).partition('/')[2].replace('/', '')]
    for s in names:
        if not re.fullmatch(r'[!#$%&\'*+\-.^_`|~0-9A-Za-z]+/'
                            r'[!#$%&\'*+\-.^_`|~0-9A-Za-z]+', s):
            continue
        low = {k.lower(): v for k, v in REG['media_type'].items()}
        info = low.get(s.lower())
        if info is None:
            rec.count('unknown elements')
        info = info or {}
        ct = [('Content-Type', s.encode() + rng.choice(
            [b'', b';a=b', b'; charset=utf-8']))]
        spec = {'req': message('req', rng, ct + [('Content-Length', b'2')],
                               method=rng.choice(['POST', 'PATCH', 'PATCH']),
                               body=b'{}'),
                'resps': [message('resp', rng, ct, body=b'{}')]}
        judged(spec, s, rec)
        spec = {'req': message('req', rng, [
            ('Accept', s.encode())], method=rng.choice(['GET', 'OPTIONS'])),
            'resps': [message('resp', rng, [
                ('Accept-Patch', s.encode()), ('Accept-Post', s.encode()),
                ('Link', b'</>; rel=next; type="%s"' % s.encode())],
                status=rng.choice([200, 415]))]}
        judged(spec, s, rec)
        # neither JSON nor XML
        exch = hp.check({'req': None, 'resps': [
            message('resp', rng, ct, body=rng.choice([b'}<', b'<a', b'[1']))]})
        got = {n.id for n in exch.responses[0].notices} & {1038, 1039}
        want = set()
        if info.get('is_json') or s.lower().endswith('+json'):
            want.add(1038)
        if info.get('is_xml') or s.lower().endswith('+xml'):
            want.add(1039)
        for n in want:
            rec.count('due %d' % n)
        if got != want:
            rec.fail('structure %r' % sorted(got ^ want),
                     '%s with a body that is neither JSON nor XML gets %r, '
                     'not %r' % (s, sorted(got), sorted(want)), s)


def directive(i, rng, rec):
    """What is known about directives and such, and their arguments"""
    kind, name = DIRECTIVES[i % len(DIRECTIVES)]
    k = i // len(DIRECTIVES)
    s = neighbour(name, rng) if k % 3 == 2 else spelling(k, name, rng)
    if not values.TOKEN.fullmatch(s):
        s = 'foo'
    if s.lower() not in {x.lower() for x in REG[kind]}:
        rec.count('unknown elements')
    b = s.encode()
    args = [None, b'1', b'"1"', b'x', b'"x"', b'""', b'"a b"', b'-1', b'1.5',
            b'"Foo, bar"', b'foo', b'strict', b'minimal', b'"[::1]:80"', b'http',
            b'example.com', b'"99999999999"', b'lenient', b'representation',
            b'clear', b'_a', b'unknown', b'"unknown"', b'0', b'"a;b"']
    for a in args:
        x = b if a is None else b + b'=' + a
        if kind == 'cache_directive':
            hs = [('Cache-Control', x)]
        elif kind == 'hsts_directive':
            hs = [('Strict-Transport-Security', rng.choice(
                [x, b'max-age=1; ' + x, x + b'; includeSubDomains']))]
        elif kind == 'preference':
            hs = [('Prefer', rng.choice([x, x + b'; a', x + b', foo=bar'])),
                  ('Preference-Applied', x)]
        elif kind == 'forwarded_param':
            hs = [('Forwarded', rng.choice([x, b'foo=1;' + x, x + b';bar=2']))]
        else:
            hs = [('Alt-Svc', b'h2=":80"; ' + x)]
        tls = rng.choice(['http', 'https'])
        for hs2 in (hs, [(gen.recase(n, rng), v) for n, v in hs]):
            judged({'req': message('req', rng, hs2, scheme=tls),
                    'resps': [message('resp', rng, hs2)]},
                   '%s %s' % (kind, x), rec)


def product(i, rng, rec):
    name = PRODUCTS[i % len(PRODUCTS)]
    k = i // len(PRODUCTS)
    s = neighbour(name, rng) if k % 3 == 2 else spelling(k, name, rng)
    if not values.TOKEN.fullmatch(s):
        s = 'foo'
    b = s.encode()
    for v in (b, b + b'/1', b + b'/1 (x)', b + b' foo/1', b'foo/1 ' + b,
              b + b' ' + rng.choice(PRODUCTS).encode(), b + b'/1 (foo/1)'):
        judged({'req': hp.req(headers=[('Host', b'a'), ('User-Agent', v)]),
                'resps': [message('resp', rng, [('Server', v)])]},
               'product %s' % v, rec)


# -- what is shown about known things

class Links(html.parser.HTMLParser):

    def __init__(self):
        super().__init__()
        self.found = []
        self.cur = None
        self.divs = []

    def handle_starttag(self, tag, attrs):
        if tag == 'div':
            self.divs.append(dict(attrs).get('class'))
        if tag == 'a' and 'complaints' not in self.divs:
            self.cur = [dict(attrs).get('href'), dict(attrs).get('title'), '']

    def handle_data(self, data):
        if self.cur is not None:
            self.cur[2] += data

    def handle_endtag(self, tag):
        if tag == 'div' and self.divs:
            self.divs.pop()
        if tag == 'a' and self.cur is not None:
            self.found.append(tuple(self.cur))
            self.cur = None


def shown(kind, name, rng):
    """An exchange that displays this element (once)."""
    b = name.encode()
    q, r = [], []
    m, st = 'GET', 200
    if kind == 'header':
        r = [(name, b'%')]
    elif kind == 'method':
        m = name
    elif kind == 'status_code':
        st = int(name)
    elif kind == 'media_type':
        r = [('Content-Type', b + b';a=b')]
    elif kind == 'cache_directive':
        r = [('Cache-Control', b'foo, ' + b)]
    elif kind == 'hsts_directive':
        r = [('Strict-Transport-Security', b'foo; ' + b)]
    elif kind == 'preference':
        q = [('Prefer', b)]
    elif kind == 'forwarded_param':
        q = [('Forwarded', b + b'=a')]
    elif kind == 'alt_svc_param':
        r = [('Alt-Svc', b'h2=":1"; ' + b + b'=1')]
    elif kind == 'auth_scheme':
        q = [('Authorization', b + b' a=b')]
    elif kind == 'content_coding':
        r = [('Content-Encoding', b)]
    elif kind == 'transfer_coding':
        r = [('Transfer-Encoding', b)]
    elif kind == 'range_unit':
        r = [('Accept-Ranges', b)]
    elif kind == 'upgrade_token':
        r = [('Upgrade', b)]
    elif kind == 'warn_code':
        r = [('Warning', b + b' - "x"')]
    elif kind == 'product':
        q = [('User-Agent', b + b'/1')]
    return {'req': hp.req(m, '/', q), 'resps': [hp.resp(st, r, reason='x')]}


def cites(i, rng, rec):
    items = [(k, n) for k in sorted(CITES) for n in sorted(CITES[k])]
    items = [x for x in items if x[0] != 'media_type' or rng.random() < .5]
    exchs, expect = [], []
    for kind, name in items:
        case_matters = kind in ('method', 'status_code', 'warn_code',
                                'upgrade_token', 'preference_', 'alt_svc_param')
        s = name if case_matters or i % 3 == 0 else \
            spelling(i % 3, name, rng) if rng.random() < .8 else name
        if rng.random() < .15 and kind not in ('status_code', 'warn_code'):
            s = neighbour(name, rng)
            if not re.fullmatch(r'[-+.\w/]+', s) or \
                    (kind == 'media_type') != ('/' in s):
                s = name
            rec.count('unknown elements')
        exchs.append(hp.check(shown(kind, s, rng)))
        expect.append((kind, s))
    buf = io.BytesIO()
    hp.httpolice.html_report(exchs, buf)
    text = buf.getvalue().decode()
    parts = text.split('<div class="exchange"')[1:]
    if len(parts) != len(expect):
        rec.fail('report', '%d exchanges shown of %d' % (
            len(parts), len(expect)), None)
        return
    for part, (kind, s) in zip(parts, expect):
        p = Links()
        p.feed(part)
        got = [(h, t) for h, t, x in p.found if x.strip() == s]
        table = CITES[kind] if kind in ('method', 'upgrade_token',
                                        'alt_svc_param') else \
            {k.lower(): v for k, v in CITES[kind].items()}
        entry = table.get(s if table is CITES[kind] else s.lower(),
                          [None, None, None])
        title, cite, url = entry
        if title and cite:
            title = '%s (%s)' % (title, cite)
        else:
            title = title or cite
        want = [(url, title)] if url else []
        rec.count('links')
        if [(h, t or None) for h, t in got] != want:
            rec.fail('link %s' % kind, '%s %r is shown as %r, not %r' % (
                kind, s, got, want), [kind, s])
