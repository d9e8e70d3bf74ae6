"""C10: HAR entries are mapped faithfully."""

import httpolice
from httpolice import inputs
from httpolice.structure import Unavailable, okay
from vp import har, hp, htmlrep, wire

PID = 'C10'
RULE = ('HAR files are generated together with what they describe (methods, '
        'URLs of every shape, versions of real and unreal tools, header '
        'lists with repetitions and pseudo-headers, body sizes known and '
        'unknown, texts, base64, special cases of Fiddler, Firefox, Chrome '
        'and Edge). The exchanges read must be those described, in order, '
        'none lost or added, over several files; what is unknown must be '
        'unknown; the notices must be those of the described exchange when '
        'built by hand; the HTML report must show it. Non-trivial: has at '
        'least one entry.')
ASSUMPTIONS = ['what a HAR file describes is known for files in the form that '
               'the HAR 1.2 specification and the known exporters use']
PROXY = {1236, 1237}


def plan(tier):
    k = 1 if tier == 'quick' else 25
    return [('map', 5000 * k, 100), ('files', 300 * k, 50),
            ('notices', 4000 * k, 100), ('html', 700 * k, 50),
            ('broken', 300 * k, 50)]


def REQUIRE(tier):
    return {'entries': 5000, 'no response': 200, 'unknown version': 1000,
            'known version': 1000, 'CONNECT': 300, 'origin form': 2000,
            'absolute form': 1000, 'text': 1000, 'decoded': 500,
            'hidden': 500, 'unknown body': 500, 'empty body': 500,
            'Fiddler': 500, 'no proxy logic': 120, 'html': 500,
            'broken': 100}


BOX = Unavailable()


def got_body(msg, kind):
    if kind == 'text':
        return msg.unicode_body if okay(msg.unicode_body) else 'UNAVAILABLE'
    if kind == 'decoded':
        return bytes(msg.decoded_body) if okay(msg.decoded_body) \
            else 'UNAVAILABLE'
    if msg.body is None or not okay(msg.body):
        # Nothing else may be claimed to be known then
        for more in (msg.decoded_body, msg.unicode_body):
            if more is not None and okay(more):
                return 'invented %r' % (more,)
    if msg.body is None:
        return ('unknown',)
    if not okay(msg.body):
        return ('hidden',)
    return bytes(msg.body)


def want_body(b):
    return b[1] if b[0] in ('text', 'decoded', 'raw') else b


def want_headers(hs):
    return [(k, v.encode('iso-8859-1', 'replace')) for k, v in hs]


def message(what, msg, want, rec, data):
    got = wire.entries(msg.header_entries)
    if got != want_headers(want['headers']):
        rec.fail('headers', '%s: %r, described %r' % (
            what, got, want['headers']), data)
    if list(msg.trailer_entries):
        rec.fail('trailers', '%s has a trailer' % what, data)
    v = None if msg.version is None else str(msg.version)
    if v != want['version']:
        rec.fail('version', '%s: %r, described %r' % (what, v, want['version']),
                 data)
    rec.count('known version' if v else 'unknown version')
    kind = want['body'][0]
    rec.count({'unknown': 'unknown body', 'raw': 'empty body'}.get(kind, kind))
    got = got_body(msg, kind)
    if got != want_body(want['body']):
        rec.fail('body', '%s: %r, described %r' % (what, got, want['body']),
                 data)


def targets(q):
    r = {q['target']}
    if q['method'] == 'OPTIONS' and q['target'] == '/':
        r.add('*')
    return r


def compare(exch, want, rec, data):
    rec.count('entries')
    req, resp = want
    if exch.request is None:
        rec.fail('request', 'no request', data)
        return
    q = exch.request
    if str(q.method) != req['method']:
        rec.fail('method', '%r, described %r' % (q.method, req['method']), data)
    if str(q.target) not in targets(req):
        rec.fail('target', '%r, described %r' % (str(q.target), req['target']),
                 data)
    if str(q.scheme) != req['scheme']:
        rec.fail('scheme', '%r, described %r' % (q.scheme, req['scheme']), data)
    rec.count('CONNECT' if req['method'] == 'CONNECT' else
              'origin form' if req['target'].startswith('/') else
              'absolute form')
    message('request', q, req, rec, data)
    if len(exch.responses) != (resp is not None):
        rec.fail('response', '%d responses' % len(exch.responses), data)
        return
    if resp is None:
        rec.count('no response')
        return
    p = exch.responses[0]
    if int(p.status) != resp['status']:
        rec.fail('status', '%r, described %r' % (p.status, resp['status']), data)
    if str(p.reason) != resp['reason']:
        rec.fail('reason', '%r, described %r' % (p.reason, resp['reason']), data)
    message('response', p, resp, rec, data)


def whole(exchs, want, rec, data):
    if len(exchs) != len(want):
        rec.fail('count', '%d exchanges from %d entries' % (
            len(exchs), len(want)), data)
        return False
    for e, w in zip(exchs, want):
        compare(e, w, rec, data)
    return True


def read(tmp, blobs):
    paths = [tmp.put('%d.har' % k, b) for k, b in enumerate(blobs)]
    return list(inputs.formats['har'](paths)), paths


def case(shard, i, rng, rec):
    with wire.Tmp() as tmp:
        globals()[shard](i, rng, rec, tmp)


def one(rng, rec, tmp, n=None):
    data, want = har.har(rng, n)
    if data['log']['creator']['name'] == 'Fiddler':
        rec.count('Fiddler')
    blob = har.dump(data, rng)
    spec = {'har': blob}
    if want:
        rec.nontrivial(blob)
        rec.sample(spec)
    exchs, paths = read(tmp, [blob])
    return exchs, want, spec, paths


def map(i, rng, rec, tmp):
    exchs, want, spec, paths = one(rng, rec, tmp)
    whole(exchs, want, rec, spec)
    for e in exchs:
        if e.notices:
            rec.fail('notice', 'on exchange: %r' % hp.ids(e), spec)
        for m in [e.request] + list(e.responses):
            if m.remark and paths[0] not in m.remark:
                rec.fail('remark', repr(m.remark), spec)


def files(i, rng, rec, tmp):
    blobs, want = [], []
    for _ in range(rng.choice([2, 3, 5])):
        d, w = har.har(rng)
        blobs.append(har.dump(d, rng))
        want += w
    spec = {'hars': blobs}
    exchs, _ = read(tmp, blobs)
    whole(exchs, want, rec, spec)
    rec.nontrivial(tuple(blobs))


def by_hand(want):
    """The described exchange, without HAR."""
    def body(b):
        return {'unknown': None, 'hidden': BOX, 'raw': b''}[b[0]]

    req, resp = want
    q = httpolice.Request(req['scheme'], req['method'], req['target'],
                          req['version'], want_headers(req['headers']),
                          body(req['size']))
    ps = []
    if resp:
        ps = [httpolice.Response(resp['version'], resp['status'],
                                 resp['reason'], want_headers(resp['headers']),
                                 body(resp['size']))]
    return httpolice.Exchange(q, ps)


BODY_IDS = {1036, 1037, 1038, 1039, 1040, 1139, 1140, 1275, 1281}


def notices(i, rng, rec, tmp):
    """What is reported is what would be for the exchange described."""
    exchs, want, spec, _ = one(rng, rec, tmp, 1)
    if not whole(exchs, want, rec, spec):
        return
    got, = exchs
    hand = by_hand(want[0])
    if str(got.request.target) != want[0][0]['target']:
        return
    for e in (got, hand):
        httpolice.check_exchange(e)
    for name, a, b, w in [('request', got.request, hand.request, want[0][0])] + \
            [('response', x, y, want[0][1])
             for x, y in zip(got.responses, hand.responses)]:
        seen, base = set(hp.ids(a)), set(hp.ids(b)) - PROXY
        if PROXY & set(hp.ids(b)):
            rec.count('no proxy logic')
        if 1236 in hp.ids(hand.request) and 1190 not in seen and \
                1191 not in seen:
            base.discard(1046)
            if 1046 in seen and not transformed(a):
                rec.fail('notices', '1046 without a known proxy', spec)
            seen.discard(1046)
        if w['body'][0] in ('text', 'decoded'):
            # `hand` has no text.
            seen, base = seen - BODY_IDS, base - BODY_IDS
            rec.count('but bodies')
        if seen != base:
            rec.fail('notices', '%s: reported %r, by hand %r' % (
                name, sorted(seen), sorted(base)), spec)


def transformed(msg):
    ws = b','.join(bytes(e.value) for e in msg.header_entries
                   if e.name == 'Warning')
    return b'214' in ws or msg.status == 203


def html(i, rng, rec, tmp):
    exchs, want, spec, paths = one(rng, rec, tmp)
    r = hp.run_cli(['-i', 'har', '-o', 'html', '--'] + paths)
    if r.status != 0 or r.err:
        rec.fail('cli', 'status %r, %r' % (r.status, r.err), spec)
        return
    secs = [s for s in htmlrep.read(r.out)]
    rec.count('html')
    if len(secs) != len(want):
        rec.fail('html count', '%d shown, %d in the file' % (
            len(secs), len(want)), spec)
        return
    for s, (req, resp) in zip(secs, want):
        parts = [(req, {' '.join(filter(None, (req['method'], t, req['version'])))
                        for t in targets(req)})]
        if resp:
            parts.append((resp, None))
        if len(s['messages']) != len(parts):
            rec.fail('html messages', '%d shown' % len(s['messages']), spec)
            return
        for m, (w, start) in zip(s['messages'], parts):
            if start and m['start'] not in start:
                rec.fail('html start', '%r, described %r' % (m['start'], start),
                         spec)
            if not start:
                words = m['start'].split()
                head = ([w['version']] if w['version'] else []) + \
                    [str(w['status'])]
                if words[:len(head)] != head:
                    rec.fail('html start', '%r, described %r' % (m['start'],
                                                                 head), spec)
            names = [t.split(':')[0] for _, t in m['entries']]
            if names != [k for k, _ in w['headers']]:
                rec.fail('html headers', '%r, described %r' % (
                    names, w['headers']), spec)
            shown = (m['body_shown'], m['body_title'], m['body'])
            kind = w['body'][0]
            if kind == 'raw':
                ok = not m['body_shown']
            elif kind == 'unknown':
                ok = m['body_title'] == 'Body is unknown' and m['body'] is None
            elif kind == 'hidden':
                ok = m['body_title'] and 'not available' in m['body_title'] \
                    and m['body'] is None
            elif kind == 'text' and w['body'][1].isalnum():
                ok = m['body'] is not None and m['body'].strip() == w['body'][1]
            else:
                ok = m['body_shown']
                if kind == 'decoded' and w['body'][1] == b'':
                    ok = True
            if not ok:
                rec.fail('html body', '%r, described %r' % (shown, w['body']),
                         spec)


def broken(i, rng, rec, tmp):
    """A broken entry spoils the file, but not what was read before it."""
    data, want = har.har(rng, rng.choice([2, 3, 4]))
    k = rng.randrange(len(want))
    e = data['log']['entries'][k]
    what = rng.choice(['request', 'url', 'method', 'status', 'headers', 'content'])
    if what == 'request':
        del e['request']
    elif what == 'url':
        e['request']['url'] = rng.choice([None, 5, [], {}])
    elif what == 'method':
        e['request']['method'] = rng.choice([None, 5, []])
    elif what == 'status':
        e['response']['status'] = rng.choice([None, 'x', []])
    elif what == 'headers':
        e['request']['headers'] = rng.choice([None, 5, [None], [{'name': 'x'}]])
    else:
        if e['response']['status'] == 0:
            return
        del e['response']['content']
    rec.count('broken')
    blob = har.dump(data, rng)
    path = tmp.put('b.har', blob)
    spec = {'har': blob}
    rec.nontrivial(blob)
    exchs = []
    try:
        for x in inputs.formats['har']([path]):
            exchs.append(x)
    except inputs.InputError as exc:
        if path not in str(exc):
            rec.fail('error', 'does not name the file: %s' % exc, spec)
    else:
        rec.fail('error', 'a broken entry (%s) was read: %d exchanges from '
                 '%d entries' % (what, len(exchs), len(want)), spec)
    for x, w in zip(exchs, want[:k]):
        compare(x, w, rec, spec)
    if len(exchs) > k:
        rec.fail('count', '%d exchanges before entry %d' % (len(exchs), k), spec)
