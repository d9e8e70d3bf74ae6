"""C11: content codings, charsets and payload formats are judged correctly."""

import base64
import json
import os
import resource
import sys
import tempfile
import time

from httpolice import inputs
from vp import gen, hp, htmlrep, payload, wire
from vp.ref.values import REG

PID = 'C11'
RULE = ('Bodies are built with known validity (JSON by an independent '
        'recognizer, XML, multipart and forms by construction), in many '
        'charsets, under chains of content codings that are right or spoiled, '
        'and delivered as requests, responses, HEAD, 304, 206, through the '
        'API, byte streams and HAR. Exactly the payload notices that follow '
        'must be reported. Entity declarations of every kind must be reported '
        'while an audit hook sees no file or network access and time and '
        'memory stay bounded. Decoded text must be shown exactly. '
        'Non-trivial: a judged body.')
ASSUMPTIONS = [
    'text that cannot be decoded from its charset is not judged',
    'of multipart bodies, only the boundary is judged; of URL-encoded ones, '
    'the characters, except :;<>? which the code lets through',
    'payloads of 204 responses with a Content-Type may or may not be judged']

JUDGED = {1036, 1037, 1038, 1039, 1040, 1139, 1140, 1275, 1281}


def plan(tier):
    k = 1 if tier == 'quick' else 20
    return [('json', 4000 * k, 200), ('xml', 3000 * k, 200),
            ('multipart', 2000 * k, 200), ('form', 2000 * k, 200),
            ('types', 1500 * k, 200), ('coding', 3000 * k, 200),
            ('notfull', 2000 * k, 200), ('hostile', 400 * k, 25),
            ('shown', 1500 * k, 100), ('har', 1000 * k, 100)]


def REQUIRE(tier):
    return {'good json': 1500, 'bad json': 1000, '1281': 300, 'good xml': 1000,
            'bad xml': 800, 'xml by charset': 200, 'good multipart': 800,
            '1139': 200, '1140': 500, 'good form': 800, 'bad form': 800,
            'other type': 700, 'coded': 2000, 'two codings': 500,
            'spoiled': 800, 'unknown coding': 200, 'undecodable charset': 40,
            'HEAD': 200, '304': 200, '206': 300, 'byteranges': 100,
            'bomb': 350, 'bomb in coding': 30, 'shown': 1000, 'har text': 300,
            'har base64': 200, 'stream': 1000, 'unknown charset': 100}


# -- putting a body into a message

def codings_for(rng, n=None):
    n = rng.choice([0, 0, 0, 1, 1, 2, 3]) if n is None else n
    return [rng.choice(['gzip', 'deflate', 'br', 'x-gzip', 'GZIP', 'Deflate',
                        'gzip']) for _ in range(n)]


def coded(data, codings, rng):
    for c in codings:
        data = payload.apply(c, data, rng)
    return data


def encoding_headers(codings, rng):
    if not codings:
        return []
    name = gen.recase('Content-Encoding', rng)
    if len(codings) > 1 and rng.random() < .3:
        return [(name, c.encode()) for c in codings]
    return [(name, rng.choice([', ', ',', ' , ']).join(codings).encode())]


def deliver(rng, headers, body, rec):
    """-> a message (checked) that is complete, as HTTPolice sees it."""
    headers = list(headers)
    for _ in range(rng.choice([0, 0, 1, 2])):
        name = gen.recase(rng.choice(['Server', 'X-Foo', 'Date', 'ETag',
                                      'Vary', 'Content-Language']), rng)
        headers.insert(rng.randint(0, len(headers)),
                       (name, gen.value(name, rng)))
    how = rng.choice(['req', 'resp', 'resp', 'lone', 'stream', 'byteranges'])
    if how == 'lone' and not body:
        how = 'resp'            # Nobody knows why it's empty.
    ver = rng.choice(['HTTP/1.1', 'HTTP/1.1', 'HTTP/1.0', 'HTTP/2', None])
    if how == 'stream':
        rec.count('stream')
        if rng.random() < .5:
            raw = wire.head('POST / HTTP/1.1', headers + [
                ('Content-Length', b'%d' % len(body))], rng) + body
            exch = wire.read(raw, None)[0]
            msg = exch.request
        else:
            hs, b = headers, body
            if rng.random() < .5:
                hs = hs + [('Content-Length', b'%d' % len(body))]
            else:
                hs = hs + [('Transfer-Encoding', b'chunked')]
                b = wire.chunked(body, [], rng)
            raw = wire.head('HTTP/1.1 200 OK', hs, rng) + b
            exch = wire.read(b'GET / HTTP/1.1\r\nHost: x\r\n\r\n', raw)[0]
            msg = exch.responses[0]
        hp.httpolice.check_exchange(exch)
        return msg, exch
    if how == 'req':
        spec = {'req': hp.req(rng.choice(['POST', 'PUT', 'PATCH', 'FOO']), '/',
                              headers, body, ver or 'HTTP/1.1'), 'resps': []}
        exch = hp.check(spec)
        return exch.request, exch
    status = rng.choice([200, 200, 201, 400, 404, 500, 299, 999])
    spec = {'req': hp.req(rng.choice(['GET', 'POST', 'OPTIONS', 'head']),
                          version=ver, headers=[('Host', b'x')])
            if how != 'lone' else None,
            'resps': [hp.resp(status, headers, body, ver)]}
    exch = hp.check(spec)
    return exch.responses[0], exch


def judge(rec, msg, must, may, data):
    got = {n for n in hp.ids(msg) if n in JUDGED}
    if must - got:
        rec.fail('not reported %s' % sorted(must - got)[0],
                 'reported %r' % sorted(got), data)
    if got - must - may:
        rec.fail('reported %s' % sorted(got - must - may)[0],
                 'expected %r' % sorted(must), data)
    for n in got:
        if hp.ids(msg).count(n) > 1:
            rec.fail('repeated', '%d is reported twice' % n, data)
    rec.nontrivial(repr(data))
    rec.sample(data)


def send(rng, rec, ctype, raw, must, may=frozenset(), n=None):
    codings = codings_for(rng, n)
    body = coded(raw, codings, rng) if raw or rng.random() < .5 else raw
    if codings:
        rec.count('coded')
        rec.count('two codings', len(codings) > 1)
    headers = [(gen.recase('Content-Type', rng), ctype)] if ctype else []
    headers += encoding_headers(codings, rng)
    msg, exch = deliver(rng, headers, body, rec)
    judge(rec, msg, set(must), set(may), {
        'type': ctype, 'payload': raw, 'headers': headers, 'body': body})
    return msg, exch


CHARSETS = [None, None, None, 'utf-8', 'UTF-8', 'utf8', '"utf-8"',
            'iso-8859-1', 'ISO-8859-1', 'windows-1251', 'koi8-r', 'utf-16',
            'utf-16le', 'UTF-16BE', 'us-ascii', 'shift_jis', 'gb18030',
            'utf-32', 'latin1', 'bogus', 'x-unknown']
UTF8 = ('utf8', 'usascii', 'ascii')


def with_charset(rng, ctype, charset):
    if charset is None:
        return ctype.encode()
    return ('%s%s%s=%s' % (ctype, rng.choice([';', '; ', ' ; ']),
                           rng.choice(['charset', 'charset', 'Charset']),
                           charset)).encode()


def codec(charset):
    return charset.strip('"').lower() if charset else 'utf-8'


def spell(charset):
    return codec(charset).replace('-', '').replace('_', '')


JSON_TYPES = ['application/json', 'application/json', 'Application/JSON',
              'application/problem+json', 'application/x-foo+json', 'a/b+JSON',
              'application/vnd.a.b+json', 'application/merge-patch+json']


def case(shard, i, rng, rec):
    globals()['do_' + shard](i, rng, rec)


def do_json(i, rng, rec):
    charset = rng.choice(CHARSETS)
    name = spell(charset)
    chars = payload.CHARS
    if name in ('usascii', 'bogus', 'xunknown'):
        chars = ['a', ' ', '/']
    text = payload.json_value(rng, chars=chars) if rng.random() < .5 else \
        payload.odd_json(rng)
    ctype = with_charset(rng, rng.choice(JSON_TYPES), charset)
    if name in ('bogus', 'xunknown'):
        rec.count('unknown charset')
        send(rng, rec, ctype, text.encode(), ())
        return
    try:
        raw = text.encode(codec(charset))
    except UnicodeError:
        return
    if rng.random() < .05 and raw and name in UTF8:
        raw += rng.choice([b'\xff', b'\x80', b'\xc0\xaf', b'\xed\xa0\x80'])
        rec.count('undecodable charset')
        send(rng, rec, ctype, raw, ())
        return
    if payload.is_json(text):
        rec.count('good json')
        must, may = set(), set()
        if name not in UTF8:
            if all(c < 128 for c in raw) and b'\0' not in raw:
                may = {1281}
            else:
                must = {1281}
                rec.count('1281')
    else:
        rec.count('bad json')
        must, may = {1038}, set()
    send(rng, rec, ctype, raw, must, may)


XML_TYPES = ['application/xml', 'text/xml', 'application/xml', 'TEXT/xml',
             'application/atom+xml', 'image/svg+xml', 'application/x-y+XML',
             'application/xhtml+xml']
#            charset parameter, declared encoding, how it is encoded
XML_ENCODINGS = [(None, None, 'utf-8'), (None, '', 'utf-8'),
                 (None, 'utf-8', 'utf-8'), (None, 'UTF-8', 'utf-8-sig'),
                 (None, 'iso-8859-1', 'iso-8859-1'), (None, None, 'utf-16'),
                 (None, 'utf-16', 'utf-16'), (None, 'us-ascii', 'ascii'),
                 (None, 'windows-1251', 'windows-1251'),
                 ('utf-8', None, 'utf-8'), ('utf-8', 'utf-8', 'utf-8'),
                 ('utf-8', 'iso-8859-1', 'utf-8'),
                 ('"UTF-8"', None, 'utf-8'), ('utf-8', None, 'utf-8-sig'),
                 ('iso-8859-1', None, 'iso-8859-1'),
                 ('iso-8859-1', 'utf-8', 'iso-8859-1'),
                 ('koi8-r', None, 'koi8-r'), ('koi8-r', 'koi8-r', 'koi8-r'),
                 ('utf-16', None, 'utf-16'), ('utf-16le', None, 'utf-16-le'),
                 ('utf-16be', 'utf-16', 'utf-16-be'),
                 ('shift_jis', None, 'shift_jis'),
                 ('iso-8859-1', None, 'utf-8-sig'),
                 ('iso-8859-1', None, 'utf-16'), ('koi8-r', None, 'utf-16-be-sig'),
                 (None, 'utf-16', 'utf-16-be-sig')]


def do_xml(i, rng, rec):
    charset, decl, enc = rng.choice(XML_ENCODINGS)
    chars = {'iso-8859-1': ['a', '\xe9', ' '], 'ascii': ['a', ' '],
             'windows-1251': ['a', '\u044f'], 'koi8-r': ['a', '\u044f'],
             'shift_jis': ['a', '\u3042']}.get(
                 enc, ['a', '\xe9', '\u044f', '\U0001f600', '\x85', ' '])
    if rng.random() < .55:
        text, must = payload.xml(rng, chars, decl), set()
        rec.count('good xml')
        if charset and enc != 'utf-8':
            rec.count('xml by charset')
    else:
        text, must = payload.odd_xml(rng, chars), {1039}
        rec.count('bad xml')
    may = set()
    if not charset and must and enc not in ('utf-8', 'utf-8-sig', 'ascii'):
        enc = 'utf-8'
    try:
        raw = ('\ufeff' + text).encode('utf-16-be') if enc == 'utf-16-be-sig' \
            else text.encode(enc)
    except UnicodeError:
        return
    send(rng, rec, with_charset(rng, rng.choice(XML_TYPES), charset), raw, must,
         may)


MULTI_TYPES = ['multipart/mixed', 'multipart/form-data', 'Multipart/Related',
               'multipart/x-unknown', 'multipart/mixed', 'multipart/alternative']


def do_multipart(i, rng, rec):
    b = rng.choice(payload.BOUNDARIES)
    good = rng.random() < .5
    text = payload.multipart(b, rng) if good else payload.odd_multipart(b, rng)
    params = [payload.boundary_param(b, rng)]
    must = set() if good else {1140}
    r = rng.random()
    if r < .15:
        must, params = {1139}, []
        rec.count('1139')
        if rng.random() < .4:
            params = [rng.choice(['bound=x', 'x="boundary=%s"' % b.replace(
                '"', ''), 'boundaryx=x', 'charset=utf-8'])]
    elif r < .35:
        params.insert(rng.choice([0, 1]), rng.choice(
            ['charset=utf-8', 'type="text/xml"', 'start="<a;b>"',
             'x="; boundary=zzz"']))
    rec.count('good multipart' if not must else '1140', 1139 not in must)
    ctype = rng.choice(MULTI_TYPES) + ''.join(
        rng.choice(['; ', ';', ' ; ']) + p for p in params)
    send(rng, rec, ctype.encode(), text.encode('latin-1'), must,
         {1140} if 1139 in must else set())


def do_form(i, rng, rec):
    raw = payload.form(rng)
    must, may = set(), set()
    if rng.random() < .5:
        k = rng.randint(0, len(raw))
        raw = raw[:k] + bytes([rng.choice(payload.FORM_BAD)]) + raw[k:]
        must = {1040}
        rec.count('bad form')
    elif rng.random() < .1:
        raw += bytes([ord(rng.choice(payload.FORM_LAX))])
        may = {1040}
    else:
        rec.count('good form')
    ctype = rng.choice(['application/x-www-form-urlencoded',
                        'application/x-www-form-urlencoded',
                        'Application/X-WWW-Form-Urlencoded',
                        'application/x-www-form-urlencoded; charset=utf-8',
                        'application/x-www-form-urlencoded;foo=bar'])
    send(rng, rec, ctype.encode(), raw, must, may)


OTHER = ['text/plain', 'text/html', 'application/octet-stream', 'text/json',
         'application/jsonx', 'application/json-seq', 'application/javascript',
         'json/json', 'application/x-json', 'application/json5', 'text/xmlx',
         'application/xml-dtd', 'application/xmlx', 'xml/xml', 'application/x',
         'multipartx/mixed', 'application/multipart', 'x-multipart/mixed',
         'application/x-www-form-urlencodedx', 'application/form',
         'application/foo+jsonx', 'application/json+foo', 'application/xml+zip',
         'text/x-www-form-urlencoded', 'image/png', 'application/foo+cbor',
         'application/xml-external-parsed-entity', 'a/json', 'a/xml',
         'application/ld-json', 'text/csv; foo="application/json"']
KINDS = {'json': 1038, 'xml': 1039, 'form': 1040, 'multi': None}


def do_types(i, rng, rec):
    """Every media type is judged as what it is, and only as that."""
    raw = rng.choice([b'~ ~', b'<a></b>', b'{', b'x y'])
    r = rng.random()
    if r < .5:
        rec.count('other type')
        send(rng, rec, gen.recase(rng.choice(OTHER), rng).encode(), raw, ())
    elif r < .55:
        send(rng, rec, rng.choice([b'', b'foo', b'/', b'json', None,
                                   b'application/json, text/xml']), raw, ())
    else:
        name = rng.choice(sorted(REG['media_type']))
        kind = 'json' if name == 'application/json' or name.endswith('+json') \
            else 'xml' if name in ('application/xml', 'text/xml') or \
            name.endswith('+xml') else \
            'form' if name == 'application/x-www-form-urlencoded' else \
            'multi' if name.startswith('multipart/') else None
        must = {'multi': {1139}}.get(kind, {KINDS.get(kind)} if kind else set())
        send(rng, rec, gen.recase(name, rng).encode(), b'~ ~', must,
             {1140} if kind == 'multi' else ())


def sample_payload(rng):
    """-> (type, raw, must) of moderate variety"""
    r = rng.random()
    if r < .3:
        good = rng.random() < .6
        s = payload.json_value(rng) if good else rng.choice(['{', 'x', '[1,]'])
        return b'application/json', s.encode(), set() if good else {1038}
    if r < .55:
        good = rng.random() < .6
        s = payload.xml(rng, ['a']) if good else '<a></b>'
        return b'text/xml', s.encode(), set() if good else {1039}
    if r < .7:
        return (b'multipart/mixed; boundary=x',
                payload.multipart('x', rng).encode('latin-1'), set())
    if r < .85:
        good = rng.random() < .6
        return (b'application/x-www-form-urlencoded',
                payload.form(rng) if good else b'a b', set() if good else {1040})
    return b'text/plain', b'hello world', set()


UNKNOWN = ['foo', 'compress', 'x-compress', 'sdch', 'zstd', 'aes128gcm', 'exi',
           'pack200-gzip', 'bzip2', 'x-br', 'gzip2', 'brotli', 'zlib']


def do_coding(i, rng, rec):
    ctype, raw, must = sample_payload(rng)
    may = set()
    codings = codings_for(rng, rng.choice([1, 1, 2, 3, 4]))
    body = raw
    for k, c in enumerate(codings):
        plain, body = body, payload.apply(c, body, rng)
        if k == len(codings) - 1 or rng.random() < .1:
            if rng.random() < .5:
                body = payload.spoil(c, plain, body, rng)
                must = {1037}
                rec.count('spoiled')
                # What follows is applied to spoiled data.
                for c in codings[k + 1:]:
                    body = payload.apply(c, body, rng)
                break
    if rng.random() < .2:
        # All that is applied after the unknown one is still undone.
        k = rng.randint(0, len(codings))
        before, after = codings[:k], codings[k:]
        good = coded(b'whatever', after, rng)
        codings = before + [rng.choice(UNKNOWN)] + after
        body, must = good, {1036}
        rec.count('unknown coding')
    rec.count('coded')
    headers = [('Content-Type', ctype)] + encoding_headers(codings, rng)
    rng.shuffle(headers)
    if len([1 for k, _ in headers if k.lower() == 'content-encoding']) > 1:
        # Their order matters.
        headers = [('Content-Type', ctype)] + \
            [('Content-Encoding', c.encode()) for c in codings]
    msg, _ = deliver(rng, headers, body, rec)
    judge(rec, msg, must, may, {'type': ctype, 'payload': raw,
                                'headers': headers, 'body': body})


def do_notfull(i, rng, rec):
    """Only complete payloads are judged."""
    ctype, raw, _ = sample_payload(rng)
    if rng.random() < .6:
        raw = rng.choice([b'{', b'<a', b'~ ~', raw[:len(raw) // 2]])
    codings = codings_for(rng, rng.choice([0, 0, 1, 2]))
    body = coded(raw, codings, rng)
    if rng.random() < .4:
        body = body[:len(body) // 2]
    headers = [('Content-Type', ctype)] + encoding_headers(codings, rng)
    how = rng.choice(['HEAD', '304', '206', '206', '103', 'byteranges', 'bad'])
    rec.count(how)
    must = set()
    method, status = 'GET', 200
    if how == 'HEAD':
        method, body = 'HEAD', b'' if rng.random() < .7 else body
        status = rng.choice([200, 404])
    elif how == '304':
        status, body = 304, b'' if rng.random() < .7 else body
    elif how == '103':
        status, body = 103, b''
    elif how == '206':
        status = 206
        headers.append(('Content-Range', b'bytes 0-4/100'))
    else:                       # These are complete although partial.
        status = 206
        good = how == 'byteranges'
        raw = ('\r\n--x\r\nContent-Range: bytes 0-0/2\r\n\r\na\r\n--x--\r\n'
               if good else 'foo').encode()
        body = coded(raw, codings, rng)
        headers[0] = ('Content-Type', b'multipart/byteranges; boundary=x')
        must = set() if good else {1140}
    resps = [hp.resp(status, headers, body, rng.choice(['HTTP/1.1', 'HTTP/2']))]
    exch = hp.check({'req': hp.req(method, headers=[('Host', b'x')])
                     if how == 'HEAD' or rng.random() < .8 else None,
                     'resps': resps})
    judge(rec, exch.responses[0], must, set(), {'headers': headers, 'body': body,
                                                'how': how})


# -- hostile documents

WATCH = {'on': False, 'seen': []}


def setup(shard, rec):
    if shard == 'hostile':
        def hook(event, args):
            if not WATCH['on']:
                return
            if event.startswith(('socket.connect', 'socket.get',
                                 'socket.sendto', 'urllib.', 'subprocess', 'os.exec',
                                 'http.client', 'ftplib')):
                WATCH['seen'].append((event, repr(args)[:200]))
            elif event == 'open' and not str(args[0]).startswith(
                    (sys.prefix, sys.base_prefix, '/usr/lib', '/opt')):
                WATCH['seen'].append((event, repr(args[0])))
        sys.addaudithook(hook)


def do_hostile(i, rng, rec):
    fd, where = tempfile.mkstemp(prefix='vp-xxe')
    os.write(fd, b'SECRET')
    os.close(fd)
    try:
        text = payload.bomb(rng, where)
        raw = text.encode(rng.choice(['utf-8', 'utf-8', 'utf-16', 'utf-8-sig']))
        charset = rng.choice([None, None, 'utf-8']) \
            if not raw.startswith(b'\xff') else None
        rec.count('bomb')
        codings = codings_for(rng, rng.choice([0, 0, 1, 2]))
        rec.count('bomb in coding', bool(codings))
        body = coded(raw, codings, rng)
        headers = [('Content-Type', with_charset(
            rng, rng.choice(XML_TYPES), charset))] + encoding_headers(codings, rng)
        if codings:
            headers = headers[:1] + [('Content-Encoding', c.encode())
                                     for c in codings]
        before = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
        t = time.process_time()
        WATCH['on'], WATCH['seen'] = True, []
        msg, exch = deliver(rng, headers, body, rec)
        report = hp.report('html', [exch])
        WATCH['on'] = False
        # Byte streams are read from scratch files of ours.
        seen = [x for x in WATCH['seen']
                if not (x[0] == 'open' and 'vp-xxe' not in x[1])]
        data = {'headers': headers, 'body': body}
        if seen:
            rec.fail('access', repr(seen), data)
        if b'SECRET' in report:
            rec.fail('access', 'contents of a file in the report', data)
        if time.process_time() - t > 10:
            rec.fail('time', '%.1f s' % (time.process_time() - t), data)
        grown = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss - before
        if grown > 200 * 1024:
            rec.fail('memory', '%d KB more' % grown, data)
        judge(rec, msg, {1275}, set(), data)
    finally:
        WATCH['on'] = False
        os.unlink(where)


# -- what comes out of decoding

def do_shown(i, rng, rec):
    charset, chars = rng.choice([
        (None, 'abc xyz\xe9\u044f'), ('utf-8', 'ab\u044f\U0001f600'),
        ('iso-8859-1', 'ab\xe9\xff'), ('koi8-r', 'a\u044f\u042f'),
        ('utf-16', 'a\u044f'), ('shift_jis', 'a\u3042'), ('"UTF-8"', 'a\xe9'),
        ('windows-1252', 'a\u20ac'), ('US-ASCII', 'abc')])
    text = ''.join(rng.choice(chars) for _ in range(rng.choice([1, 5, 40, 900])))
    text = 'a' + text.replace(' ', '') + 'z'
    raw = text.encode(codec(charset))
    codings = codings_for(rng)
    headers = [(gen.recase('Content-Type', rng),
                with_charset(rng, rng.choice(['text/plain', 'text/html', 'x/y']),
                             charset))] + encoding_headers(codings, rng)
    msg, exch = deliver(rng, headers, coded(raw, codings, rng), rec)
    rec.count('shown')
    data = {'headers': headers, 'text': text}
    sec, = htmlrep.read(hp.report('html', [exch]))
    shown = sec['messages'][0 if exch.request is msg else -1]
    if shown['body'] is None or shown['body'].strip() != text:
        rec.fail('shown', '%r instead of %r' % (shown['body'], text), data)
    title = shown['body_title'] or ''
    if ('removing Content-Encoding' in title) != bool(codings):
        rec.fail('shown title', repr(title), data)
    if charset and codec(charset) != 'utf-8' and 'decoding from' not in title:
        rec.fail('shown title', repr(title), data)
    judge(rec, msg, set(), set(), data)


def do_har(i, rng, rec):
    """HAR has text or base64 without content codings."""
    as_text = rng.random() < .5
    good = rng.random() < .5
    must = set()
    if as_text:
        rec.count('har text')
        r = rng.random()
        s = payload.json_value(rng, chars=['a', '\u044f', '\u20ac']) if good else \
            payload.odd_json(rng)
        if not s or any(0xd800 <= ord(c) < 0xe000 for c in s):
            return
        ctype = rng.choice(['application/json', 'application/x+json',
                            'application/json;charset=utf-8', 'text/plain'])
        if 'json' in ctype and not payload.is_json(s):
            must = {1038}
        content = {'text': s}
    else:
        rec.count('har base64')
        ctype, raw, must = sample_payload(rng)
        ctype = ctype.decode()
        if not raw:
            return
        content = {'text': base64.b64encode(raw).decode(), 'encoding': 'base64'}
    content.update(size=rng.choice([5, 100, -1]), mimeType=ctype)
    status = rng.choice([200, 200, 404, 304])
    headers = [{'name': 'Content-Type', 'value': ctype}]
    if rng.random() < .4:
        headers.append({'name': 'Content-Encoding',
                        'value': rng.choice(['gzip', 'br', 'deflate'])})
    q = {'method': 'GET', 'url': 'http://a.example/', 'httpVersion': 'HTTP/1.1',
         'headers': [{'name': 'Host', 'value': 'a.example'}], 'bodySize': 0}
    qmust = set()
    if as_text and rng.random() < .5:
        q.update(method='POST', bodySize=rng.choice([3, -1]),
                 postData={'mimeType': ctype, 'text': content['text']})
        q['headers'] = q['headers'] + headers[:1]
        qmust = must
    entry = {'request': q, 'response': {
        'status': status, 'statusText': 'x', 'httpVersion': 'HTTP/1.1',
        'headers': headers, 'content': content,
        'bodySize': rng.choice([5, -1, -1])}}
    data = {'log': {'creator': {'name': rng.choice(
        ['WebInspector', 'Firefox', 'Foo', 'Fiddler'])}, 'entries': [entry]}}
    if status == 304:
        must = set()
    with wire.Tmp() as tmp:
        exch, = inputs.formats['har']([tmp.put('x', json.dumps(data).encode())])
    hp.httpolice.check_exchange(exch)
    judge(rec, exch.responses[0], must, set(), data)
    judge(rec, exch.request, qmust, set(), data)
