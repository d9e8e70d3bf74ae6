"""C12: a value is reported as malformed exactly when its grammar rejects it."""

from vp import focus, gen, hp        # noqa: F401
from vp.ref import rules, values

PID = 'C12'
RULE = ('Values of every header with a defined syntax (plausible, derived from '
        'the grammar, edited, truncated, spliced, swept through all 256 octets '
        'at one position, exhausted for single octets, long lists), methods, '
        'request targets in all forms, field names, reason phrases, and nested '
        'arguments; a syntax notice must be there exactly if an independent '
        'ABNF recogniser (vp/ref/abnf.py over vp/ref/http.abnf) rejects the '
        'value. Non-trivial: the value has at least two octets.')
ASSUMPTIONS = ['vp/ref/http.abnf is a right transcription of the RFCs']
NAMES = sorted(n for n in gen.HEADERS)
G = gen.GRAMMAR
SYNTAX = {1000, 1158, 1257, 1266}


def plan(tier):
    k = 1 if tier == 'quick' else 12
    return [('values', len(NAMES) * 16 * k, 40), ('sweep', len(NAMES) * 4 * k, 8),
            ('start', 900 * k, 30), ('nested', 6000 * k, 100),
            ('long', len(NAMES) * k, 8)]


def REQUIRE(tier):
    r = {'accepted': 20000, 'rejected': 20000}
    for n in NAMES:
        r['accepted ' + n] = 100
        r['rejected ' + n] = 100
    for n in (1045, 1292, 1293, 1294):
        r['due %d' % n] = 80
        r['not due %d' % n] = 500
    for n in (1158, 1257, 1266):
        r['due %d' % n] = 100
    return r


def message(rng, name, value):
    """A minimal message with just that header."""
    hs = [(name, value)]
    if rng.random() < .5:
        return hp.req('GET', '/', hs), None
    return None, hp.resp(200, hs, None)


def judged(rng, name, value):
    """(notice 1000 is reported, it should be)"""
    q, r = message(rng, gen.recase(name, rng), value)
    e = hp.check({'req': q, 'resps': [r] if r else []})
    m = e.request if q else e.responses[0]
    return 1000 in hp.ids(m), not G.matches(gen.HEADERS[name][0], value)


def one(rng, rec, name, value):
    if name == 'HTTPolice-Silence' and b'1000' in value:
        return
    got, want = judged(rng, name, value)
    rec.count('rejected' if want else 'accepted')
    rec.count(('rejected ' if want else 'accepted ') + name)
    if len(value) > 1:
        rec.nontrivial((name, value))
    if got != want:
        rec.fail('%s %s' % ('accepted' if want else 'rejected', name),
                 '%s: %r is %sreported as malformed, the grammar %s it' % (
                     name, value, '' if got else 'not ',
                     'rejects' if want else 'accepts'),
                 {'name': name, 'value': value})


def some_value(rng, name):
    rule = gen.HEADERS[name][0]
    r = rng.random()
    if r < .2:
        v = gen.nice_value(name, rng)
    elif r < .5:
        v = G.gen(rule, rng)
    elif r < .6:
        v = G.gen(rule, rng, p_more=.7, p_more_chars=.8)
    elif r < .7:
        v = gen.nice_value(name, rng)
        v = v[:rng.randint(0, len(v))]
    elif r < .8:
        a, b = G.gen(rule, rng), gen.nice_value(name, rng)
        v = a[:rng.randint(0, len(a))] + b[rng.randint(0, len(b)):]
    elif r < .95:
        v = gen.mutate(rng.choice([gen.nice_value(name, rng),
                                   G.gen(rule, rng)]), rng)
    else:
        v = bytes(rng.choice(gen.JUNK) for _ in range(rng.randint(0, 6)))
    return v[:600]


def values_case(i, rng, rec):
    name = NAMES[i % len(NAMES)]
    for _ in range(50):
        one(rng, rec, name, some_value(rng, name))


def sweep_case(i, rng, rec):
    name = NAMES[i % len(NAMES)]
    rule = gen.HEADERS[name][0]
    if i < len(NAMES):
        base, at = b'', 0
    else:
        base = rng.choice([gen.nice_value(name, rng), G.gen(rule, rng)])[:80]
        at = rng.randint(0, len(base))
    insert = rng.random() < .5
    for c in range(256):
        one(rng, rec, name,
            base[:at] + bytes([c]) + base[at + (0 if insert else 1):])


def long_case(i, rng, rec):
    name = NAMES[i % len(NAMES)]
    rule = gen.HEADERS[name][0]
    for _ in range(4):
        r = rng.random()
        if r < .4:
            v = rng.choice([b',', b', ', b' ,\t', b';', b'; ']).join(
                G.gen(rule, rng) for _ in range(rng.randint(5, 40)))
        elif r < .7:
            v = G.gen(rule, rng, p_more=.9, p_more_chars=.95, max_depth=20)
        else:
            v = gen.nice_value(name, rng)
            a, b = sorted([rng.randint(0, len(v)), rng.randint(0, len(v))])
            v = v[:a] + v[a:b] * rng.choice([10, 50]) + v[b:]
        one(rng, rec, name, v[:1500])


def startline(i, rng, rec):
    for _ in range(20):
        what = rng.choice(['method', 'target', 'target', 'name', 'reason'])
        if what == 'method':
            v = rng.choice(gen.METHODS + ['', 'G ET', 'GET/', 'm-x', 'M\u00e9',
                                          'a' * 300])
            v = edit(rng, v.encode('latin-1'))
            e = hp.check({'req': hp.req(v.decode('latin-1')), 'resps': []})
            verdict(rec, 1292, v, e.request, G.matches('method', v))
        elif what == 'reason':
            v = edit(rng, rng.choice([b'OK', b'', b'Not Found', b'caf\xe9',
                                      b'a\tb', b'a' * 300]))
            e = hp.check({'req': None, 'resps': [
                hp.resp(200, [], None, reason=v.decode('latin-1'))]})
            verdict(rec, 1294, v, e.responses[0],
                    all(c == 9 or 32 <= c < 127 or c > 127 for c in v))
        elif what == 'name':
            v = edit(rng, rng.choice(gen.NAMES + [b'X-Foo', b'', b'A b', b'a:']))
            e = hp.check({'req': hp.req('GET', '/', [(v.decode('latin-1'),
                                                      b'x')]), 'resps': []})
            verdict(rec, 1293, v, e.request, G.matches('field-name', v))
        else:
            method = rng.choice(['GET', 'POST', 'FOO', 'CONNECT', 'OPTIONS',
                                 'connect', 'options', 'HEAD', ''])
            v = target(rng)
            e = hp.check({'req': hp.req(method, v.decode('latin-1')),
                          'resps': []})
            verdict(rec, 1045, v, e.request, G.matches(rule_for(method), v),
                    method)


def rule_for(method):
    return {'CONNECT': 'authority-form', 'OPTIONS': 'options-target'}.get(
        method, 'normal-target')


def target(rng):
    r = rng.random()
    if r < .3:
        v = rng.choice([b'/', b'*', b'/?', b'//', b'/a?b#c', b'http://x', b'x:1',
                        b'http://[::1]/', b'[::1]:80', b'foo:', b'/%zz', b'',
                        b'urn:a:b', b'?', b'a@b:1', b'/a b', b'http://x/#f',
                        b':80', b'x', b'**', b'/*', b'http:///', b'/\xe9'])
    else:
        v = G.gen(rng.choice(['origin-form', 'absolute-form', 'authority-form',
                              'URI-reference', 'URI', 'IP-literal']), rng)
    return edit(rng, v)[:300]


def edit(rng, v):
    r = rng.random()
    if r < .4:
        return v
    if r < .5:
        return v[:rng.randint(0, len(v))]
    return gen.mutate(v, rng)


def verdict(rec, n, v, msg, ok, extra=''):
    got = n in hp.ids(msg)
    rec.count('%sdue %d' % ('not ' if ok else '', n))
    rec.nontrivial((n, extra, v))
    if got == ok:
        rec.fail('%d %s' % (n, 'extra' if ok else 'missed'),
                 '%d is %s for %r %s' % (
                     n, 'reported' if ok else 'not reported', v, extra),
                 {'value': v, 'what': n, 'extra': extra})


# -- arguments inside values

def quote(rng, v):
    return b'"' + b''.join(
        b'\\' + bytes([c]) if c in b'"\\' or rng.random() < .03 else bytes([c])
        for c in v) + b'"'


def wrap(rng, v):
    if v and G.matches('token', v) and rng.random() < .7:
        return v
    return quote(rng, v)


def arg(rng, rule, nice=()):
    r = rng.random()
    v = rng.choice(nice) if nice and r < .4 else G.gen(rule, rng)
    return edit(rng, v)


def named(rng, kind, default):
    name = rng.choice(sorted(values.REG[kind]))
    rule = values.REG[kind][name].get('rule') or default
    name = gen.recase(name, rng).encode()
    r = rng.random()
    if r < .08:
        return name
    return name + b'=' + wrap(rng, arg(rng, rule, NICE.get(rule, ())))


NICE = {
    'delta-seconds': [b'0', b'1', b'60', b'007', b'1' * 30, b'-1', b'1.5', b'+1',
                      b'', b'1 ', b'0x1'],
    'field-name-list': [b'', b',', b'a', b'a, b', b'Set-Cookie', b'a b', b'a,,b'],
    'alt-persist': [b'1', b'0', b'11', b'', b'true'],
    'pref-return': [b'minimal', b'Representation', b'min', b''],
    'pref-handling': [b'strict', b'LENIENT', b'foo'],
    'node': [b'1.2.3.4', b'_x', b'unknown', b'[::1]:80', b'1.2.3.4:_p', b'x',
             b'1.2.3.4:123456', b'_', b'::1', b'UNKNOWN'],
    'Host': [b'example.com', b'a:1', b'[::1]', b'', b'a b', b'a:b'],
    'scheme': [b'http', b'HTTPS', b'1a', b'a+b', b''],
    'relation-types': [b'next', b'NEXT', b'next prev', b'http://x/', b'', b'a  b',
                       b'blocked-by', b'1', b'x:y', b'a.b-c'],
    'URI-reference': [b'/x', b'', b'http://x/', b'a b', b'#f', b'%'],
    'Language-Tag': [b'en', b'en-US', b'e', b'x-foo', b'i-klingon', b'de-x'],
    'link-type': [b'text/html', b'text', b'*/*', b'a/b;c', b'-/a'],
    'ext-value': [b"UTF-8''a%20b", b"utf-8'en'x", b'x', b"''", b"UTF-8''%e",
                  b"foo''a", b"UTF-8'e'a"],
    'alt-authority': [b':80', b'x:80', b'x', b'', b'[::1]:80', b':', b'a@b:1'],
    'scope': [b'a', b'a b', b'', b'a"b', b'a\\b', b' a', b'\xe9'],
    'error-text': [b'invalid_token', b'a b', b'', b'\\', b'\xe9', b'"'],
    'URI': [b'http://x/', b'/x', b'', b'urn:x', b'http://x/ y'],
}
LINK = {'rel': 'relation-types', 'rev': 'relation-types',
        'anchor': 'URI-reference', 'hreflang': 'Language-Tag',
        'type': 'link-type', 'title*': 'ext-value'}
BEARER = {'scope': 'scope', 'error': 'error-text',
          'error_description': 'error-text', 'error_uri': 'URI-reference'}


def nested_header(rng):
    kind = rng.choice(['cc', 'sts', 'prefer', 'pa', 'fwd', 'link', 'alt',
                       'bearer', 'cd'])
    n = rng.choice([1, 1, 1, 2, 3])
    if kind == 'cc':
        return 'b', 'Cache-Control', b', '.join(
            named(rng, 'cache_directive', 'token') for _ in range(n))
    if kind == 'sts':
        return 'r', 'Strict-Transport-Security', b'; '.join(
            named(rng, 'hsts_directive', 'token') for _ in range(n))
    if kind == 'prefer':
        return 'q', 'Prefer', b', '.join(
            named(rng, 'preference', 'token') + rng.choice([b'', b'', b';a=1'])
            for _ in range(n))
    if kind == 'pa':
        return 'r', 'Preference-Applied', b', '.join(
            named(rng, 'preference', 'token') for _ in range(n))
    if kind == 'fwd':
        return 'q', 'Forwarded', rng.choice([b';', b', ']).join(
            named(rng, 'forwarded_param', 'token') for _ in range(n))
    if kind == 'link':
        ps = []
        for _ in range(n):
            name = rng.choice(sorted(LINK))
            v = arg(rng, LINK[name], NICE[LINK[name]])
            if name in ('rel', 'rev') and rng.random() < .3:
                v += b' ' + arg(rng, LINK[name], NICE[LINK[name]])
            ps.append(gen.recase(name, rng).encode() + b'=' + wrap(rng, v)
                      if rng.random() < .95 else name.encode())
        return 'b', 'Link', b'</x>; ' + b'; '.join(ps)
    if kind == 'alt':
        auth = quote(rng, arg(rng, 'alt-authority', NICE['alt-authority']))
        ps = [named(rng, 'alt_svc_param', 'token') for _ in range(n - 1)]
        return 'r', 'Alt-Svc', b'; '.join([b'h2=' + auth] + ps)
    if kind == 'bearer':
        ps = []
        for _ in range(n):
            name = rng.choice(sorted(BEARER))
            ps.append(gen.recase(name, rng).encode() + b'=' +
                      wrap(rng, arg(rng, BEARER[name], NICE.get(BEARER[name], ()))))
        return 'r', 'WWW-Authenticate', gen.recase('Bearer', rng).encode() + \
            b' ' + b', '.join(ps)
    v = arg(rng, 'ext-value', NICE['ext-value'])
    return 'r', 'Content-Disposition', b'attachment; ' + \
        gen.recase('filename*', rng).encode() + b'=' + v + \
        rng.choice([b'', b'; filename=x'])


def nested(i, rng, rec):
    for _ in range(4):
        where, name, value = nested_header(rng)
        value = gen.clean_value(value)
        hs = [(name, value)]
        if where == 'q' or where == 'b' and rng.random() < .5:
            spec = {'req': hp.req('GET', '/', hs), 'resps': []}
        else:
            spec = {'req': hp.req(), 'resps': [hp.resp(401, hs, b'x')]}
        e = hp.check(spec)
        try:
            q, rs = rules.judge(spec)
        except values.Unsure:
            continue
        m, obj = (rs[0], e.responses[0]) if rs else (q, e.request)
        got = set(hp.ids(obj)) & SYNTAX
        for n in m.must & SYNTAX:
            rec.count('due %d' % n)
        rec.nontrivial((name, value))
        for n in sorted(m.must & SYNTAX - got):
            rec.fail('%d missed' % n, '%d is not reported for %s: %r' % (
                n, name, value), spec)
        for n in sorted(got - m.must - m.may):
            rec.fail('%d extra' % n, '%d is reported for %s: %r' % (
                n, name, value), spec)


def case(shard, i, rng, rec):
    {'values': values_case, 'sweep': sweep_case, 'start': startline,
     'nested': nested, 'long': long_case}[shard](i, rng, rec)
