"""Hostile text for reports: markup, line breaks, controls, forged lines."""

import json

from vp import gen, hp, wire

NASTY = ['\nE 1000 forged', '\r\n------------ response: 200 OK\r\n',
         '\n------------ request: GET /forged\nE 1000 Syntax error in Foo header',
         '\rC 1110 forged\r', '\n', '\r', '\t', '\x0b', '\x0c', '\x1c', '\x85',
         '\u2028', '\u2029', '<script>alert(1)</script>', '"><b class="x">',
         "' onmouseover='x", '&lt;', '&#60;', '&amp;amp;', '&', '<', '>', '"',
         '\x00', '\x1b[31m', '\x7f', '\x9b', '\ud800', '\udcff', '\ufffe',
         '\uffff', '\ufdd0', ']]>', '<!--', '-->', '</pre></code>', '</div>',
         '---- CUT HERE ----', '%s', '{0}', '{', '\\', '\u202e', '\U0001f600',
         '\u044f\u044f', '\u201cx\u201d', 'E 1000 x', '------------', '</html>',
         '<?xml?>', '<![CDATA[', '\xa0', '\u2014', '&nbsp;', '\ufeff', 'e\u0301']


def text(rng, long=True):
    r = ''.join(rng.choice(NASTY + ['a', 'GET', '/', ' '])
                for _ in range(rng.choice([1, 1, 2, 3])))
    if long and rng.random() < .1:
        r += 'x' * rng.choice([20, 40, 60, 80, 3000])
    return r


def octets(rng):
    s = text(rng)
    return s.encode(rng.choice(['utf-8', 'utf-8', 'utf-16']), 'surrogatepass')


BODY_TYPES = [b'text/html; charset=utf-8', b'text/plain', b'application/json',
              b'application/x-www-form-urlencoded', b'text/plain; charset=utf-16',
              b'application/xml', b'text/css; charset=latin-1',
              b'application/octet-stream', b'image/png', b'text/x; charset=foo']


def poison(spec, rng):
    """Put hostile text into a few places of an exchange."""
    msgs = ([spec['req']] if spec['req'] else []) + spec['resps']
    if not msgs:
        return spec
    for _ in range(rng.choice([1, 1, 2, 4, 8])):
        m = rng.choice(msgs)
        where = rng.choice(['start', 'start', 'value', 'value', 'quoted', 'name',
                            'body', 'remark', 'trailer', 'version', 'nice'])
        if where == 'start':
            if 'method' in m:
                k = rng.choice(['method', 'target'])
                m[k] = (m[k] if rng.random() < .3 else '') + text(rng)
            else:
                m['reason'] = rng.choice(['OK', '']) + text(rng)
        elif where == 'version':
            m['version'] = text(rng)
        elif where == 'remark':
            m['remark'] = text(rng)
        elif where == 'body':
            m['body'] = b''.join(octets(rng) for _ in range(rng.choice(
                [1, 2, 5]))) * rng.choice([1, 1, 1, 20, 300])
            m['headers'] = [h for h in m['headers'] if h[0].lower() not in
                            ('content-type', 'content-encoding')]
            m['headers'].append(('Content-Type', rng.choice(BODY_TYPES)))
            if rng.random() < .15:          # about as long as previews are
                b = b''.join(octets(rng) for _ in range(9))[:900].decode(
                    'utf-8', 'ignore')
                b = (b + rng.choice('ax\u044f \U0001f600') * 1200)[
                    :rng.choice([999, 1000, 1000, 1001, 1002])]
                m['body'] = b.encode('utf-8')
                m['headers'][-1] = ('Content-Type', rng.choice(
                    [BODY_TYPES[0], BODY_TYPES[1], b'text/plain; charset=utf-8']))
            elif rng.random() < .3:
                m['body'] = json.dumps(
                    rng.choice([1, 1, 40]) * [gen.some_json(rng)], indent=rng.choice([None, 1])).encode()
                if rng.random() < .7:
                    m['headers'][-1] = ('Content-Type', rng.choice(
                        [b'application/json', b'application/problem+json']))
            if rng.random() < .3:
                c = rng.choice([b'gzip', b'deflate', b'br', b'x-gzip'])
                m['body'] = gen.encode(m['body'], c, rng)
                m['headers'].append(('Content-Encoding', c))
        elif where == 'name':
            m['headers'].append((rng.choice(['X-', '', 'Foo']) + text(rng),
                                 octets(rng)))
        elif where == 'trailer':
            m['trailers'] = list(m.get('trailers') or []) + [
                (rng.choice(['Foo', 'Age', 'X-' + text(rng)]), octets(rng))]
        elif where == 'nice':
            # damage a good value: more of it is understood
            if m['headers']:
                k = rng.randrange(len(m['headers']))
                n, v = m['headers'][k]
                if isinstance(v, bytes):
                    at = rng.randint(0, len(v))
                    m['headers'][k] = (n, v[:at] + octets(rng) + v[at:])
        else:
            pool = gen.REQUEST_HEADERS if 'method' in m else \
                gen.RESPONSE_HEADERS
            v = octets(rng)
            if where == 'quoted':
                q = b'"' + v.replace(b'\\', b'').replace(b'"', b'\\"') + b'"'
                m['headers'].append(rng.choice([
                    ('Link', b'</x>; rel=' + q),
                    ('Link', b'</x>; rel=next; ' + rng.choice(
                        [b'title=', b'foo=', b'hreflang=']) + q),
                    ('Prefer', b'foo=' + q + b', foo=' + q),
                    ('Preference-Applied', b'foo=' + q),
                    ('Warning', b'199 - ' + q),
                    ('Alt-Svc', b'h2=' + q), ('Forwarded', b'for=' + q),
                    ('Content-Disposition', b'attachment; filename=' + q),
                    ('WWW-Authenticate', b'Basic realm=' + q + b', charset=' + q),
                    ('WWW-Authenticate', b'Bearer error=' + q + b', error=' + q),
                    ('Cache-Control', b'max-age=' + q + b', no-cache=' + q),
                    ('Strict-Transport-Security', b'max-age=' + q),
                    ('Content-Type', b'text/plain; charset=' + q),
                    ('Via', b'1.1 a (' + v + b')'), ('Expect', q),
                    ('User-Agent', b'(' + v + b')')]))
            else:
                m['headers'].append((rng.choice(pool), v))
    return spec


def exchanges(rng, n=None):
    """[spec or list of exchanges read from streams]"""
    out = []
    for _ in range(n or rng.choice([1, 1, 2, 3])):
        spec = gen.exchange(rng, rng.choice([.1, .4, .9]))
        if rng.random() < .7:
            poison(spec, rng)
        out.append(spec)
    return out


def stream_exchanges(rng):
    """Exchanges from a damaged capture, with complaint boxes; checked."""
    inb, outb = wire.hostile_pair(rng)
    es = wire.read(inb, outb)
    for e in es:
        hp.httpolice.check_exchange(e)
    return es


def mixture(rng):
    """[(spec or None, checked exchange)]"""
    out = [(s, hp.check(s)) for s in exchanges(rng)]
    if rng.random() < .25:
        at = rng.randint(0, len(out))
        out[at:at] = [(None, e) for e in stream_exchanges(rng)]
    return out
