"""C01: checking and reporting any exchange terminates without an exception."""

from vp import gen, hp

PID = 'C01'
RULE = ('Random exchanges (65 headers, each with plausible, ABNF-generated, '
        'mutated and random values; all methods, statuses, versions, bodies '
        'in many media types, charsets and codings, unknown fields) plus '
        'hostile scaling cases (nesting, huge numbers, long lists, odd '
        'charsets and XML encodings); each is checked and rendered as text '
        'and HTML. Non-trivial: at least one header or body was judged.')
ASSUMPTIONS = ['CPU limit of 60 s per case stands for "terminates"']


def plan(tier):
    if tier == 'quick':
        return [('gen', 2400, 100), ('wild', 1600, 100), ('hostile', 480, 20),
                ('single', 1600, 100)]
    return [('gen', 24000, 200), ('wild', 20000, 200), ('hostile', 4000, 40),
            ('single', 30000, 200)]


def REQUIRE(tier):
    return {'exchanges': 3000, 'notices': 10000, 'header values': 5000,
            'bodies': 1000}


DEEP = [
    lambda n: b'(' * n + b')' * n, lambda n: b'(' * n,
    lambda n: b'a (' + b'(\\)' * n + b')' * n + b')',
    lambda n: b'"' + b'\\"' * n + b'"', lambda n: b',' * n,
    lambda n: b' , ' * n, lambda n: b'a=' * n, lambda n: b'a,' * n,
    lambda n: b'a;' * n, lambda n: b'a/b;' + b'c=d;' * n,
    lambda n: b'9' * n, lambda n: b'1, ' * n, lambda n: b'a' * n,
    lambda n: b'Basic ' + b',' * n, lambda n: b'Basic ' + b'a=b,' * n,
    lambda n: b'Foo ' + b', ' * n + b'Bar' + b', ' * n,
    lambda n: b'[' * n, lambda n: b'%' * n, lambda n: b'%41' * n,
    lambda n: b'</a>; rel=x, ' * n, lambda n: b'</a>' + b'; a' * n,
    lambda n: b'</a>; rel="' + b'a ' * n + b'"',
    lambda n: b'bytes=' + b'1-2,' * n, lambda n: b'bytes ' + b'9' * n + b'-'
    + b'9' * (n + 1) + b'/*',
    lambda n: b'<' + b'/' * n + b'>', lambda n: b'http://' + b'[' * n,
    lambda n: b'"a' * n, lambda n: b"a*=utf-8''" + b'%ff' * n,
    lambda n: b'max-age=' + b'9' * n, lambda n: b'W/"' + b'x' * n + b'"',
    lambda n: b'Sun, 06 Nov ' + b'9' * n, lambda n: b'a.' * n,
    lambda n: b'/' * n, lambda n: b':' * n, lambda n: b'=' * n,
    lambda n: b'for=' + b'_' * n, lambda n: b'for=a;' * n,
    lambda n: b'100-continue' * n, lambda n: b'a b ' * n, lambda n: b'a/' * n,
    lambda n: b'a/1 (x) ' * n, lambda n: b'x; q=' + b'0' * n,
    lambda n: b'h2=":443"; ma=' + b'9' * n, lambda n: b'1.1 a (' * n,
    lambda n: b'110 - "x"' + b' ' * n, lambda n: b'\xff' * n,
    lambda n: b'a-' * n, lambda n: b'x-' + b'a-' * n + b'a',
]
SIZES = [1, 2, 7, 30, 60, 120, 250, 400, 1100, 5000]


def deep_value(rng):
    f = rng.choice(DEEP)
    n = rng.choice(SIZES)
    v = f(n)
    return gen.clean_value(v[:6000])


def deep_body(rng):
    n = rng.choice([10, 100, 900, 1100, 3000, 20000, 100000])
    return rng.choice([
        ('application/json', b'[' * n + b']' * n),
        ('application/json', b'{"a":' * n + b'1' + b'}' * n),
        ('application/json', b'[' * n), ('application/json', b'1' * n),
        ('application/json', b'-' + b'1' * n + b'.5e' + b'9' * 20),
        ('application/json', b'"' + b'\\ud800' * n + b'"'),
        ('application/json; charset=utf-16', b'\x00[' * n),
        ('application/xml', b'<a>' * n + b'</a>' * n),
        ('application/xml', b'<a ' + b'b="c" ' * n + b'/>'),
        ('application/xml', b'<a ' +
         b' '.join(b'b%d=""' % i for i in range(min(n, 5000))) + b'/>'),
        ('text/xml', b'<!DOCTYPE a [' + b''.join(
            b'<!ENTITY x%d "&x%d;&x%d;">' % (i, i - 1, i - 1)
            for i in range(1, 40)) + b']><a>&x39;</a>'),
        ('multipart/form-data; boundary=xyz', gen.PART * min(n, 2000)),
        ('multipart/byteranges; boundary=xyz', gen.PART * min(n, 1000) +
         b'--xyz--'),
        ('multipart/mixed; boundary=xyz',
         b''.join(b'--%s\r\nContent-Type: multipart/mixed; boundary=%s\r\n\r\n'
                  % (b'xyz' + b'%d' % i if i else b'xyz',
                     b'xyz' + b'%d' % (i + 1)) for i in range(min(n, 2000)))),
        ('multipart/mixed; boundary="' + 'x' * 50 + '"', b'-' * n),
        ('application/x-www-form-urlencoded', b'a=b&' * n),
        ('application/x-www-form-urlencoded', b'%' * n),
        ('text/plain; charset=utf-7', b'+' * n),
        ('text/html', b'<' * n), ('text/plain', b'\x00' * n),
    ])


CHARSETS = ['utf-8', 'hex', 'base64', 'rot13', 'zlib', 'bz2', 'idna',
            'punycode', 'unicode_escape', 'raw_unicode_escape', 'undefined',
            'mbcs', 'oem', 'utf-7', 'utf-16', 'utf-32', 'quopri', 'uu',
            'palmos', 'utf_8_sig', 'cp65001', 'foo', '', 'a b', '\xff', '\0',
            'string_escape', 'unicode_internal', 'x' * 3000, '../etc', '.',
            'utf-8\0', 'encodings', 'aliases', 'charmap', 'gb18030', 'big5',
            'shift_jis', 'iso2022_jp', 'ascii', 'latin-1', 'tactis']


def charset_case(rng):
    cs = rng.choice(CHARSETS)
    t = rng.choice(['text/plain', 'text/html', 'application/json', 'text/xml',
                    'application/xml', 'image/svg+xml', 'text/csv'])
    b = rng.choice([b'hello', b'{"a": 1}', b'<a/>',
                    b'<?xml version="1.0" encoding="' +
                    cs.encode('iso-8859-1') + b'"?><a/>', b'\xff\xfe\x00',
                    bytes(rng.randrange(256) for _ in range(30)), b'+AGEAYg-',
                    b'caf\xc3\xa9', b'\\ud800\\x', b'=3D', b'xn--'])
    return ('%s; charset="%s"' % (t, cs)), b


STR_VALUES = ['caf\u00e9', '\u044f', '\U0001f600', '\ud800', '\x00', 'a\nb',
              '\u2028', '']


def hostile(rng):
    spec = gen.exchange(rng, .2)
    q = spec['req'] or gen.request(rng, .2)
    spec['req'] = q
    if not spec['resps']:
        spec['resps'].append(gen.response(rng, .2))
    kind = rng.randrange(8)
    side = rng.choice([q, spec['resps'][0]])
    if kind in (0, 1, 2):
        pool = gen.REQUEST_HEADERS if side is q else gen.RESPONSE_HEADERS
        if rng.random() < .1:
            side['headers'].append(('User-Agent' if side is q else 'Server',
                                    gen.clean_value(b'x (' * 600)))
        for _ in range(rng.choice([1, 1, 3])):
            name = rng.choice(pool)
            v = deep_value(rng)
            side['headers'].append((name, v))
    elif kind == 3:
        ct, b = deep_body(rng)
        side['headers'] = [h for h in side['headers']
                           if h[0].lower() not in ('content-type',
                                                   'content-encoding')]
        side['headers'].append(('Content-Type', ct.encode()))
        side['body'] = b
    elif kind == 4:
        ct, b = charset_case(rng)
        side['headers'] = [h for h in side['headers']
                           if h[0].lower() not in ('content-type',
                                                   'content-encoding')]
        side['headers'].append(('Content-Type', ct.encode('iso-8859-1')))
        side['body'] = b
    elif kind == 5:
        # odd (but allowed) text where the API takes text
        q['method'] = rng.choice(STR_VALUES + ['G' * 3000, 'GET', 'a b'])
        q['target'] = rng.choice(STR_VALUES + [
            '/' * 3000, 'http://[', 'http://[v1.x]/', '/?' + 'a=b&' * 1000,
            'http://\u2100/', '//[', 'http://a:99999999999/', '/?%ff',
            'http://[::1%25x]/', '*', 'http://a:b', '/' + '%' * 200])
        q['scheme'] = rng.choice([None, 'http', 'https', 'foo', '', '\u044f'])
        q['version'] = rng.choice([None, 'HTTP/1.1', '', 'foo', '\u044f',
                                   'HTTP/2'])
        r = spec['resps'][0]
        r['reason'] = rng.choice(STR_VALUES + [None, 'x' * 3000])
        r['status'] = rng.choice([0, -1, 1, 99, 100, 1000, 10**9, 10**30, 200])
        r['version'] = rng.choice([None, 'HTTP/1.1', '', 'foo', '\u044f'])
    elif kind == 6:
        # text header values and odd names
        for _ in range(4):
            side['headers'].append((
                rng.choice(STR_VALUES + ['Foo', 'A' * 500, 'a:b', 'Age',
                                         'Content-Type', 'Link']),
                rng.choice([v.encode('utf-8', 'surrogatepass')
                            for v in STR_VALUES] +
                           ['foo', 'caf\u00e9', '\u044f', '\ud800', b'x',
                            '</a>; rel'])))
    else:
        # interplay of status, Link, dates, and numbers
        r = spec['resps'][0]
        r['status'] = rng.choice([451, 451, 206, 416, 304, 401, 426, 200])
        for _ in range(rng.randint(1, 5)):
            r['headers'].append(rng.choice([
                ('Link', rng.choice(gen.LINKS)),
                ('Age', rng.choice([b'9' * n for n in (9, 10, 12, 20, 400)])),
                ('Date', gen.date(rng)), ('Expires', gen.date(rng)),
                ('Last-Modified', gen.date(rng)),
                ('Retry-After', b'9' * rng.choice([1, 20, 5000])),
                ('Content-Length', b'9' * rng.choice([1, 20, 5000])),
                ('Cache-Control', b'max-age=' +
                 b'9' * rng.choice([1, 11, 20, 5000])),
                ('Content-Range', b'bytes 0-1/' +
                 b'9' * rng.choice([1, 20, 5000])),
                ('Location', rng.choice(gen.URIS)),
                ('Content-Location', rng.choice(gen.URIS))]))
        q['target'] = rng.choice(gen.TARGETS)
    return spec


ALL = sorted(gen.HEADERS)


def single(i, rng):
    """One header with one value at a time, round-robin."""
    name = ALL[i % len(ALL)]
    side = gen.HEADERS[name][1]
    q = hp.req('GET', '/', [('Host', b'example.com')])
    r = hp.resp(200, [], b'hello')
    for m, s in ((q, 'q'), (r, 'r')):
        if side in ('b', s) or rng.random() < .1:
            for _ in range(rng.choice([1, 1, 1, 2])):
                m['headers'].append((name, gen.value(name, rng, .9)))
    return {'req': q, 'resps': [r]}


def case(shard, i, rng, rec):
    if shard == 'hostile':
        spec = hostile(rng)
    elif shard == 'single':
        spec = single(i, rng)
    else:
        spec = gen.exchange(rng, .25 if shard == 'gen' else .9)
    exch = hp.check(spec)
    rec.count('exchanges')
    n = sum(len(hp.ids(o)) for o in [exch] + list(exch.children))
    rec.count('notices', n)
    msgs = ([spec['req']] if spec['req'] else []) + spec['resps']
    for m in msgs:
        rec.count('header values', len(m['headers']))
        if m['body']:
            rec.count('bodies')
    if any(m['headers'] or m['body'] for m in msgs):
        rec.nontrivial(spec)
    for kind in ('text', 'html'):
        out = hp.report(kind, [exch])
        rec.count(kind + ' bytes', len(out))
    if shard == 'hostile':
        rec.sample(spec)
