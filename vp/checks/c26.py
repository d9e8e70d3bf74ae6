"""C26: notice texts name the right things."""

import os
import re
from collections import Counter, defaultdict

from vp import focus, gen, hp, htmlrep, payload, textrep, vary, wire
from vp.checks import c13
from vp.ref import framing, rules, texts, values
from vp.ref.values import okay

PID = 'C26'
RULE = ('Every notice in the HTML report is compared as a whole (title and '
        'explanation) with its documented text, in which the placeholders are '
        'filled with the culprits that an independent judge (vp/ref/rules.py, '
        'vp/ref/values.py, vp/ref/framing.py) finds in that message: every '
        'text must name a real culprit, and every culprit must be named, '
        'except for notices reported once for several (SOME). Parse errors '
        'must be those of the named header. Highlights that stand for headers '
        'must lead to entries of these names. The titles in the text report '
        'must be the same. Exchanges come from recipes aimed at each area of '
        'rules, a general generator, bodies in bad formats and codings, and '
        'damaged byte streams (for framing notices and complaint boxes). '
        'Non-trivial: a culprit was named that is not fixed by the notice.')
ASSUMPTIONS = ['vp/ref/notices.json holds the documented texts',
               'vp/ref finds the culprits rightly',
               'details of JSON and XML errors are not judged']
# Reported for one of several culprits
SOME = {1102, 1103, 1200, 1276, 1210, 1211}
# Not always seen
RARE = {1002, 1058, 1077, 1096, 1111, 1117, 1121, 1141, 1142, 1144, 1182, 1202,
        1203, 1232, 1242, 1267, 1303}


def plan(tier):
    k = 1 if tier == 'quick' else 12
    return [('aimed', 6500 * k, 200), ('general', 1200 * k, 100),
            ('body', 1500 * k, 100), ('stream', 3000 * k, 200),
            ('seldom', 2000 * k, 100), ('capture', 100 * k, 20)]


def REQUIRE(tier):
    r = {'texts': 30000, 'highlights': 10000, 'culprits named': 10000,
         'parse errors': 2000}
    for n in set(texts.NOTICES) - RARE:
        r['text %d' % n] = 1
    return r


def case(shard, i, rng, rec):
    if shard == 'stream':
        return stream(i, rng, rec)
    if shard == 'capture':
        return capture(i, rng, rec)
    if shard == 'seldom':
        spec = rng.choice([seldom, several])(rng)
    elif shard == 'aimed':
        spec = focus.RECIPES[rng.choice(sorted(focus.RECIPES))](rng)
    elif shard == 'general':
        spec = gen.exchange(rng, rng.choice([0, .05, .25]))
    else:
        spec = body(rng)
    vary.unsilence(spec)
    for attempt in (1, 2):      # The clock may tick in between.
        wrong = examine(rec, spec, hp.check(spec))
        if not wrong:
            break
    for mech, msg in wrong or []:
        rec.fail(mech, msg, spec)


def examine(rec, spec, exch):
    try:
        req, resps = rules.judge(spec)
    except values.Unsure:
        rec.count('not judged')
        return []
    shown = htmlrep.read(hp.report('html', [exch]))
    if not shown:
        rec.count('nothing there')
        return []
    html, = shown
    ms = ([req] if req else []) + resps
    wrong = []
    if len(html['messages']) != len(ms):
        return [('messages', '%d messages shown' % len(html['messages']))]
    names = entries_of(html)
    for m, h in zip(ms, html['messages']):
        about_bodies(m)
        wrong += judge(rec, m, req, h['notices'], names, spec)
    wrong += same_in_text(rec, exch, html)
    return wrong


def entries_of(html):
    """{identifier of an entry: how it is shown} of a whole exchange"""
    return {i: re.sub(r'\s*:\s', ': ', text.strip().lower() + ' ') for m in html['messages']
            for i, text in m['entries'] + m['trailers']}


def about_bodies(m):
    """What the judge leaves to C11."""
    for c in m.h_content_encoding.items:
        m.texts += [(1036, {'coding': c}), (1037, {'coding': c})]
    if m.body and m.h_content_encoding.absent:
        k = re.match(rules.FORM_GOOD, m.body).end()
        if k < len(m.body):
            m.texts.append((1040, {'char': described(m.body[k])}))


class described:
    """A pattern that a description of a character must match."""

    def __init__(self, c):
        name = [n for n, x in c13.CHARS.items() if x == c]
        if name:
            self.pattern = re.escape(name[0])
        elif 33 <= c < 127:
            self.pattern = re.escape(chr(c))
        else:
            self.pattern = '0x%02x' % c


BODY_IDS = {1036, 1037, 1040}
TREAT_AS_MUST = rules.BODY_IDS


def judge(rec, m, req, notices, names, spec):
    by_id = defaultdict(list)
    for n in notices:
        by_id[n['id']].append(n)
    due = defaultdict(list)
    for n, fills in m.texts:
        if fills not in due[n]:
            due[n].append(fills)
    wrong = []
    for n, ns in by_id.items():
        sure = n in m.must
        cands = due[n] or [{}]
        if not sure and n not in BODY_IDS:
            cands = cands + [{}]
        pats = [texts.pattern(n, f, m, req) for f in cands]
        met = set()
        for x in ns:
            s = texts.shown(x)
            ok = [k for k, p in enumerate(pats) if p.fullmatch(s)]
            rec.count('texts')
            rec.count('text %d' % n)
            if not ok:
                wrong.append(('text %d' % n, 'notice %d says %r; what it could '
                              'be about: %r' % (n, s.split('\x00'), cands)))
            met.update(ok)
            if n == 1000 and ok:
                wrong += parse_error(rec, x, [cands[k] for k in ok])
            wrong += highlights(rec, x, names)
            if texts.placeholders(n):
                rec.count('culprits named')
                rec.nontrivial((n, x['title']))
                rec.sample(spec)
        missing = [c for k, c in enumerate(cands)
                   if k not in met and not c.get('unsure')]
        if missing and sure and n not in SOME:
            wrong.append(('missing %d' % n, 'notice %d is not reported about '
                          '%r' % (n, missing)))
        elif n == 1276 and sure:
            # once for every header
            if {c['header'] for c in cands} != {cands[k]['header']
                                                for k in met}:
                wrong.append(('missing 1276', 'notice 1276 is not reported '
                              'about every header: %r' % cands))
    return wrong


def parse_error(rec, x, cands):
    """Is it about the value of that header?"""
    try:
        got = c13.read_error(x['paras'])
    except (c13.Unread, IndexError):
        return []               # C13's business
    rec.count('parse errors')
    rights = []
    for c in cands:
        name = c['place']
        rule = values.header_info(str(name)).get('rule')
        if not rule:
            return []
        rights.append(values.GRAMMAR.diagnose(rule, c['raw'])[1])
    if got[0] not in rights:
        return [('position', '%r: error at %d, expected at %r' % (
            x['title'], got[0], rights))]
    return []


def highlights(rec, x, names):
    """Does what it points at bear that name?"""
    doc = texts.NOTICES[x['id']]
    wrong = []
    plain = [e for e in x['elem'].elems[1:] if e.tag == 'span' and
             not e.text().strip()]
    if len(plain) != len(doc['refs']):
        wrong.append(('references %d' % x['id'],
                      '%d: %d things to highlight, not %d' % (
                          x['id'], len(plain), len(doc['refs']))))
    for to, e in zip(doc['refs'], plain):
        want = re.fullmatch(r'msg\.(?:request\.)?headers\.(\w+)', to)
        if not want:
            continue
        for k in e.attrs.get('data-ref-to', '').split():
            rec.count('highlights')
            if k in names and not names[k].startswith(
                    want[1].replace('_', '-') + ':'):
                wrong.append(('highlight %d' % x['id'],
                              '%d: %s highlights %s' % (x['id'], to, names[k])))
    for e in x['elem'].walk():
        text = e.text().strip().lower()
        if e.tag != 'span' or not text:
            continue
        for k in e.attrs.get('data-ref-to', '').split():
            if k in names:
                rec.count('highlights')
                if not names[k].startswith(text + ':'):
                    wrong.append(('highlight %d' % x['id'],
                                  '%d: %r highlights %s' % (x['id'], text,
                                                            names[k])))
    return wrong


def same_in_text(rec, exch, html):
    shown = textrep.all_notices(textrep.read(hp.report('text', [exch])))
    a = Counter((n, textrep.plain(t)) for _, n, t in shown)
    b = Counter((x['id'], textrep.plain(x['title']))
                for m in [html] + html['messages'] for x in m['notices'])
    if a != b:
        return [('not the same', 'text report: %r, HTML report: %r' % (
            sorted(a - b), sorted(b - a)))]
    return []


def body(rng):
    """Bodies with something wrong about them."""
    kind = rng.choice(['json', 'xml', 'form', 'multipart', 'coding', 'charset',
                       'bomb', 'token'])
    hs = []
    data = gen.body(rng)[:2000] if rng.random() < .5 else b'abc'
    if kind == 'json':
        hs.append(('Content-Type', rng.choice([
            b'application/json', b'application/problem+json'])))
        data = payload.odd_json(rng).encode('utf-8', 'replace')
    elif kind == 'xml':
        hs.append(('Content-Type', b'application/xml'))
        data = payload.odd_xml(rng, payload.CHARS).encode('utf-8', 'replace')
    elif kind == 'bomb':
        hs.append(('Content-Type', b'application/xml'))
        data = (b'<?xml version="1.0"?><!DOCTYPE a [<!ENTITY b "c">'
                b'<!ENTITY d "&b;&b;">]><a>&d;</a>')
    elif kind in ('form', 'token'):
        hs.append(('Content-Type', b'application/x-www-form-urlencoded'))
        data = payload.form(rng)
        data = data if isinstance(data, bytes) else data.encode()
        k = rng.randint(0, len(data))
        if kind == 'form':
            data = data[:k] + bytes([rng.randrange(256)]) + data[k:]
        else:
            data += b'&access_token=abc'
    elif kind == 'multipart':
        hs.append(('Content-Type', b'multipart/%s; boundary=abc' % rng.choice(
            [b'mixed', b'form-data', b'byteranges'])))
        data = rng.choice([b'', b'--abc\r\n\r\nx\r\n', b'--abc--',
                           b'--abc\r\n\r\nx\r\n--abc--\r\n', b'abc',
                           b'--abc\r\nContent-Range: bytes 0-0/5\r\n\r\nx\r\n'
                           b'--abc\r\n\r\ny\r\n--abc--'])
    elif kind == 'charset':
        cs = rng.choice(['utf-16', 'latin-1', 'cp1251', 'utf-32'])
        hs.append(('Content-Type', ('application/json; charset=%s' %
                                    cs).encode()))
        data = '{"a": "b"}'.encode(cs)
    if kind == 'coding' or rng.random() < .2:
        cs = [rng.choice([b'gzip', b'deflate', b'br', b'x-gzip', b'foo',
                          b'compress', b'exi', b'GZip'])
              for _ in range(rng.choice([1, 1, 2]))]
        hs.append(('Content-Encoding', b', '.join(cs)))
        if rng.random() < .5:
            for c in cs:
                data = gen.encode(data, c.lower(), rng)
    hs.append(('Content-Length', b'%d' % len(data)))
    hs.append(('Date', b'Thu, 01 Jan 2015 00:00:00 GMT'))
    rng.shuffle(hs)
    if rng.random() < .4:
        return {'req': hp.req('POST', '/', [('Host', b'example.com'),
                                            ('User-Agent', b'a/1')] + hs, data),
                'resps': []}
    q = hp.req('GET', '/', [('Host', b'example.com'), ('User-Agent', b'a/1'),
                            ('Range', b'bytes=0-1,4-5')])
    status = 206 if b'byteranges' in repr(hs).encode() else 200
    return {'req': q, 'resps': [hp.resp(status, hs, data)]}


LETTERS = ['a', 'b', 'c']
PAIRS = {        # header: (from the client?, names, values, separators, start)
    'Forwarded': (True, ['for', 'by', 'host', 'x'], LETTERS, [';', ','], ''),
    'Prefer': (True, ['return', 'wait', 'foo', 'handling', 'respond-async'],
               ['5', 'minimal', 'strict'], [',', ';', ','], ''),
    'Strict-Transport-Security': (
        False, ['max-age', 'includeSubDomains', 'foo', 'Bar'], ['5', '0'], [';'],
        'max-age=7;'),
    'Content-Disposition': (False, ['filename', 'filename*', 'x', 'y'],
                            ['a', '"b c"', "utf-8''a"], [';'], 'attachment;'),
    'Content-Type': (False, ['charset', 'a', 'b'], ['utf-8', 'x'], [';'],
                     'text/plain;'),
    'Cache-Control': (False, ['no-cache', 'no-store', 'private', 'public',
                              'max-age', 's-maxage', 'foo', 'only-if-cached',
                              'min-fresh', 'stale-if-error',
                              'must-revalidate'],
                      ['5', 'x', '"a"'], [','], ''),
    'WWW-Authenticate': (False, ['realm', 'scope', 'error', 'error_uri', 'x',
                                 'charset', 'error_description'],
                         ['a', '"b c"', '"\xe9"', 'utf-8'], [','], None),
    'Link': (False, ['rel', 'title', 'type', 'anchor', 'x'],
             ['a', '"b"', '"@"', 'text/plain'], [';', ',</b>;'], '</a>;'),
    'Alt-Svc': (False, ['ma', 'persist', 'h2', 'foo'],
                ['5', '1', 'x', '":443"', '"a"', '"b"'], [';', ',h2=":1";'],
                'h2=":8";'),
    'Preference-Applied': (False, ['return', 'wait', 'foo', 'respond-async'],
                           ['5', 'minimal'], [','], ''),
    'Accept': (True, ['*/*', 'text/*', 'text/html', 'image/*', 'image/png'],
               ['0.5', '0.7'], [',q'], ''),
    'Accept-Language': (True, ['*', 'en', 'en-us', 'fr'], ['0.5', '0.7'],
                        [',q'], ''),
    'Accept-Encoding': (True, ['*', 'gzip', 'x-gzip', 'x-compress', 'br'],
                        ['0.5', '0.7'], [',q'], ''),
}


def several(rng):
    """Headers in which one of several things is wrong."""
    def value(name):
        _, names, values, seps, start = PAIRS[name]
        out = start
        if start is None:
            out = rng.choice(['Basic ', 'Bearer ', 'Digest '])
        for k in range(rng.randint(1, 6)):
            sep = rng.choice(seps)
            if k:
                out += sep.rstrip('q')
            out += rng.choice(names)
            if rng.random() < .8:
                out += (';q=' if 'q' in sep else '=') + rng.choice(values)
        return (name, out.encode('latin-1'))

    qh = [('Host', b'example.com'), ('User-Agent', b'a/1')]
    rh = [('Date', b'Mon, 04 Jan 2016 00:00:00 GMT')]
    for name in rng.sample(sorted(PAIRS), 3):
        for _ in range(rng.choice([1, 1, 1, 2])):
            (qh if PAIRS[name][0] or name == 'Cache-Control' and
             rng.random() < .5 else rh).append(value(name))
    rng.shuffle(rh)
    return {'req': hp.req(rng.choice(['GET', 'POST']), '/', qh),
            'resps': [hp.resp(rng.choice([200, 401, 202]), rh, b'abc')]}


def seldom(rng):
    """Notices that say something particular, but are seldom met."""
    qh = [('Host', b'example.com'), ('User-Agent', b'a/1')]
    n = rng.randint(0, 5000)
    day = b'Thu, %02d Jan 2015 00:00:00 GMT' % rng.randint(1, 28)
    rh = [('Date', b'Mon, 04 Jan 2016 00:00:00 GMT')]
    method = rng.choice(['GET', 'POST', 'PUT', 'DELETE', 'PATCH', 'OPTIONS',
                         'PROPFIND', 'FOO', 'HEAD'])
    uri = rng.choice(['/', '/foo', '/foo?a=b'])
    there = rng.choice([uri.encode(), b'http://example.com' + uri.encode()])
    body, rbody = b'', b'abc'
    kind = rng.choice([1060, 1085, 1097, 1102, 1114, 1123, 1128, 1170, 1202,
                       1286, 1172])
    if kind == 1060:
        method, status = 'DELETE', rng.choice([200, 201, 203, 299])
        rh.append(('Content-Location', there))
    elif kind == 1085:
        status = rng.choice([301, 302, 303, 307, 308])
        rh.append(('Location', there))
    elif kind == 1097:
        status, body = 411, b'x' * n
        qh.append(('Content-Length', b'%d' % n))
    elif kind == 1102:
        status = 426
        p = rng.choice([b'h2c', b'foo/1', b'TLS/1.0', b'websocket'])
        p2 = rng.choice([b'bar', p])
        qh += [('Upgrade', p2 + b', ' + p), ('Connection', b'upgrade')]
        rh += [('Upgrade', p), ('Connection', b'upgrade')]
    elif kind == 1114:
        status = 405
        rh.append(('Allow', b'GET, ' + method.encode()))
    elif kind == 1123:
        method, status = rng.choice(['GET', 'HEAD']), rng.choice([200, 203])
        qh.append(('If-Modified-Since', day))
        rh.append(('Last-Modified', day))
    elif kind == 1128:
        status = 412
        qh.append(('If-Modified-Since', day))
    elif kind == 1170:
        status = 200
        qh.append(('Cache-Control', b'max-age=%d' % n))
        rh += [('Age', b'%d' % (n + rng.randint(-1, 100))),
               ('Cache-Control', b'max-age=100000')]
    elif kind == 1202:
        status = rng.choice([206, 304, 200, 416, 412, 100, 101, 199, 103])
        rh.append(('Age', b'%d' % n))
    elif kind == 1172:
        status = 200
        qh.append(('Cache-Control', b'min-fresh=%d' % n))
        rh += [('Age', b'%d' % rng.randint(0, 10000)),
               ('Cache-Control', b'max-age=%d' % rng.randint(0, 10000))]
    else:
        status = rng.choice([202, 200])
        qh.append(('Prefer', b'respond-async, wait=%d' % n))
        rh.append(('Preference-Applied', rng.choice([
            b'respond-async', b'wait=%d' % n, b'return=minimal', b'foo'])))
    rng.shuffle(rh)
    return {'req': hp.req(method, uri, qh, body),
            'resps': [hp.resp(status, rh, rbody)]}


def capture(i, rng, rec):
    """Stream files without counterparts, and with a strange one."""
    with wire.Tmp() as tmp:
        a, b = '010.000.000.%03d-50000' % i, '010.000.000.%03d-00080' % (i + 1)
        there = '1400000000-%s-%s-1' % (a, b)
        back = '1400000001-%s-%s-1' % (b, a)
        names = {there: b'GET / HTTP/1.1\r\nHost: a\r\n\r\n'}
        n = 1278
        if rng.random() < .5:
            n = 1279
            names = {there: b'\x16\x03foo', back: b'\x16\x03bar'}
        paths = [tmp.put(k, v) for k, v in sorted(names.items())]
        boxes = [e for e in hp.inputs.formats['tcpflow']([tmp.dir])
                 if e.request is None and not e.responses]
        told = [dict(zip(('path1', 'path2'), p)) for p in (paths, paths[::-1])]
        if n == 1278:
            told = [{'path': paths[0]}]
        pats = [texts.pattern(n, f) for f in told]
        for e in boxes:
            html, = htmlrep.read(hp.report('html', [e]))
            x, = html['notices']
            rec.count('texts')
            rec.count('text %d' % n)
            rec.nontrivial((n, i))
            s = texts.shown(x)
            if not any(p.fullmatch(s) for p in pats):
                rec.fail('text %d' % n, 'notice %d says %r, expected %r' % (
                    n, s.split('\x00'), told), sorted(names))


# -- framing

def read_with_names(inb, outb):
    with wire.Tmp() as tmp:
        one = tmp.put('in', inb) if inb is not None else None
        two = tmp.put('out', outb) if outb is not None else None
        fmt = 'streams' if one and two else \
            'req-stream' if one else 'resp-stream'
        paths = [p for p in (one, two) if p]
        return one, two, list(hp.inputs.formats[fmt](paths))


def spec_of(e):
    def message(m, f):
        d = f(m)
        if d['body'] == 'UNKNOWN':
            d['body'] = None
        d.setdefault('scheme', getattr(m, 'scheme', None))
        return d
    q = e.request
    return {'req': message(q, wire.seen_request) if q is not None else None,
            'resps': [message(r, wire.seen_response) for r in e.responses]}


PLACES = ('request heading', 'response heading', 'chunked body')


def stream(i, rng, rec):
    inb, outb = wire.hostile_pair(rng)
    x = rng.random()
    if x < .15:
        inb = None
    elif x < .3:
        outb = None
    elif x < .35:
        # more than can be read
        big = b'Content-Length: %d\r\n' % (10 ** rng.randint(10, 30))
        inb, outb = b'GET / HTTP/1.1\r\nHost: a\r\n\r\n' * 2, \
            b'HTTP/1.1 200 OK\r\n' + big + b'\r\nabc'
    data = {'inbound': inb, 'outbound': outb}
    one, two, exchanges = read_with_names(inb, outb)
    items = framing.read(inb, outb, gen.GRAMMAR)
    for e in exchanges:
        hp.httpolice.check_exchange(e)
    for e, item in zip(exchanges, items):
        html, = htmlrep.read(hp.report('html', [e])) or [None]
        if html is None:
            continue
        names = entries_of(html)
        wrong = same_in_text(rec, e, html)
        if e.request is None and not e.responses:
            if item[0] != 'box':
                return          # C07's business
            wrong += box(rec, item, one, two, html['notices'])
        else:
            spec = spec_of(e)
            if any(h[0].lower() == 'httpolice-silence'
                   for m in vary.messages(spec) for h in m['headers']):
                continue
            try:
                req, resps = rules.judge(spec)
            except values.Unsure:
                continue
            for m, h in zip(([req] if req else []) + resps, html['messages']):
                about_bodies(m)
                about_framing(m, one if m.kind == 'req' else two)
                wrong += judge(rec, m, req, [x for x in h['notices']
                                             if x['id'] != 1000 or
                                             m.names], names, data)
        for mech, msg in wrong:
            rec.fail(mech, msg, data)


def about_framing(m, path):
    for t in m.h_transfer_encoding.items:
        m.texts += [(n, {'coding': t[0]}) for n in (1003, 1027)]
    n = m.h_content_length.value
    m.texts.append((1004, {'error.name': path}))
    if okay(n):
        m.texts.append((1298, {'place': 'Content-Length', 'size': n}))
    m.texts.append((1298, {'place': rules.OneOf(PLACES)}))
    heading = '%s heading' % ('request' if m.kind == 'req' else 'response')
    m.texts.append((1224, {'place': rules.OneOf([heading, 'chunked body'])}))
    m.must |= FRAMING - {1298, 1003, 1027, 1004, 1224}
    if not m.h_transfer_encoding.present:
        m.must.add(1224)


FRAMING = framing.FRAMING_IDS - {1000}


def box(rec, item, one, two, notices):
    wrong = []
    _, n, offset = item
    path = one if n in (1006, 1007) else two
    fills = {'stream.name': path}
    if offset is not None:
        fills['offset'] = offset
    pat = texts.pattern(n, fills)
    for x in notices:
        rec.count('texts')
        rec.count('text %d' % x['id'])
        s = texts.shown(x)
        if x['id'] == n and not pat.fullmatch(s):
            wrong.append(('text %d' % n, 'notice %d says %r, expected %r' % (
                n, s.split('\x00'), fills)))
        if n in (1006, 1009) and x['id'] == n and os.path.basename(path) not in \
                os.path.basename(x['paras'][0]):
            wrong.append(('stream %d' % n, 'notice %d says %r about %s' % (
                n, s.split('\x00'), path)))
        rec.nontrivial((n, offset))
    return wrong
