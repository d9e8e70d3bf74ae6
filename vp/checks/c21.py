"""C21: missing knowledge only silences checks, never adds errors."""

import copy

import json
import os
import tempfile

from vp import area, har, hp, vary
from vp.ref import rules, values

PID = 'C21'
RULE = ('From an exchange in which everything is known, pieces are taken away '
        'in two steps (T within S): the request as a whole, its scheme, '
        'versions, reason phrases, bodies. Every message must then have no '
        'notice that it does not have with more pieces known, and must still '
        'have those which by the independent rules (vp/ref/rules.py) do not '
        'depend on what is missing; where a single piece is missing that only '
        'certain notices can depend on (reason, body, scheme), all others '
        'must stay. Non-trivial: knowledge was lost and some notices stayed '
        'and some went.')
ASSUMPTIONS = ['vp/ref/rules.py is right about what does not depend on the '
               'missing piece']
KNOWN = set().union(*rules.AREAS.values()) | {1000}


def plan(tier):
    k = 1 if tier == 'quick' else 12
    return [('steps', 9000 * k, 250), ('har', 2000 * k, 250), ('bodies', 2500 * k, 250)]


def REQUIRE(tier):
    r = {'steps': 9000, 'something went': 2000, 'something stayed': 5000,
         'missing request': 1000,
         'HAR': 1200}
    for p in ('scheme', 'version', 'reason', 'body', 'resp version',
              'resp body'):
        r['missing ' + p] = 1000
    return r


def pieces_of(spec):
    """[(message index, key)], 'req' standing for all of the request"""
    r = []
    if spec['req']:
        r.append((0, None))
    for k, m in enumerate(vary.messages(spec)):
        keys = ['version', 'body']
        keys.append('scheme' if spec['req'] and k == 0 else 'reason')
        r += [(k, x) for x in keys if m.get(x) is not None]
    return r


def consistent(spec):
    """Drop contradictions: bodies that the rest says are not there."""
    q = spec['req']
    if q and q['body'] and q['version'] in ('HTTP/1.0', 'HTTP/1.1') and \
            not vary.find(q['headers'], 'content-length') and \
            not vary.find(q['headers'], 'transfer-encoding'):
        q['headers'].append(('Content-Length', b'%d' % len(q['body'])))
    if q and q['method'] == 'HEAD':
        for m in spec['resps']:
            m['body'] = b''


def without(spec, gone):
    s = copy.deepcopy(spec)
    for k, x in gone:
        if x is not None:
            vary.messages(s)[k][x] = None
    if (0, None) in gone:
        s['req'] = None
    return s


def named(spec, piece):
    k, x = piece
    if x is None:
        return 'request'
    return x if spec['req'] and k == 0 or x == 'reason' else 'resp ' + x


def har_case(rng, rec):
    """The same for what HAR files may leave out."""
    data, _ = har.har(rng, 1)
    log = data['log']
    e = log['entries'][0]
    q, p = e['request'], e['response']
    for m in (q, p):
        m['headers'] = [h for h in m['headers']
                        if h['name'].lower() != 'httpolice-silence']
    c = p['content']
    # Let sizes not contradict the text
    if p['bodySize'] == 0 or c['size'] == 0 or not c.get('text'):
        c.pop('text', None)
    if not (q.get('postData') or {}).get('text') or q['bodySize'] == 0:
        q.pop('postData', None)
    if q['method'] == 'HEAD':
        c.pop('text', None)
        p['bodySize'] = 0
    if log['creator']['name'] == 'Fiddler':
        log['creator']['name'] = 'Some Tool'
    # A body that is known to be there was announced
    if q['bodySize'] and not any(h['name'].lower() == 'content-length'
                                 for h in q['headers']):
        q['headers'].append({'name': 'Content-Length', 'value': '5'})
    two = copy.deepcopy(data)
    q2, p2 = (two['log']['entries'][0][x] for x in ('request', 'response'))
    done = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        r = rng.randrange(6)
        if r == 0 and 'text' in p2['content']:
            del p2['content']['text']
        elif r == 1 and q2.get('postData'):
            del q2['postData']
        elif r == 2:
            rng.choice([q2, p2])['httpVersion'] = rng.choice(['', 'unknown'])
        elif r == 3:
            two['log']['creator']['name'] = rng.choice(
                har.CREATORS[:3] if data['log']['creator']['name'] not in
                har.CREATORS[:3] and
                data['log']['creator']['name'] != 'Firefox' else
                [two['log']['creator']['name']])
        elif r == 4:
            q2['bodySize'] = -1
        else:
            if p2['content']['size'] > 0 or p2['bodySize'] > 0:
                p2['bodySize'] = p2['content']['size'] = -1
        done.append(r)
    if two == data:
        rec.count('nothing to leave out')
        return
    rec.count('HAR')

    def seen(d):
        with tempfile.TemporaryDirectory() as tmp:
            path = os.path.join(tmp, 'x.har')
            with open(path, 'w') as f:
                json.dump(d, f)
            exch, = hp.inputs.har_input([path])
        hp.httpolice.check_exchange(exch)
        return [set(hp.ids(m)) for m in [exch.request] +
                list(exch.responses)]
    for _ in range(3):
        a, b = seen(data), seen(two)
        wrong = [(sorted(y - x), k) for k, (x, y) in enumerate(zip(a, b))
                 if y - x]
        if not wrong:
            break
    if wrong or len(a) != len(b):
        rec.fail('HAR %r' % wrong, 'with less in the HAR file (%r), %r is new' %
                 (done, wrong), [data, two])
    elif a != b and any(b):
        rec.nontrivial(('har', tuple(done), repr(a)))


def case(shard, i, rng, rec):
    if shard == 'har':
        har_case(rng, rec)
        return
    spec = vary.base(rng)
    while not vary.messages(spec):
        spec = vary.base(rng)
    vary.unsilence(spec)
    if shard == 'bodies':
        for m in vary.messages(spec):
            if rng.random() < .8:
                m['body'] = rng.choice([b'', b'{', b'<a', b'{}', b'a=b', b'x',
                                        b'a b', b'access_token=x',
                                        b'{"a": 1}', b'\xff'])
                if rng.random() < .7:
                    m['headers'] = [
                        h for h in m['headers'] if h[0].lower() not in
                        ('content-type', 'content-encoding')] + [(
                            'Content-Type', rng.choice([
                                b'application/json', b'text/xml',
                                b'application/x-www-form-urlencoded',
                                b'multipart/mixed; boundary=x',
                                b'multipart/byteranges; boundary=x',
                                b'application/xhtml+xml',
                                b'application/json; charset=utf-16',
                                b'text/html; charset=foo']))]
                if rng.random() < .2:
                    m['headers'].append(('Content-Encoding', rng.choice(
                        [b'gzip', b'foo', b'deflate', b'br'])))
    consistent(spec)
    ps = pieces_of(spec)
    if not ps:
        return
    if rng.random() < .5:
        first, more = [], [rng.choice(ps)]
    else:
        first = [p for p in ps if rng.random() < .3]
        more = [p for p in ps if p not in first and rng.random() < .5] or \
            [rng.choice(ps)]
    one = without(spec, first)
    two = without(spec, first + more)
    names = sorted({named(spec, p) for p in more})
    for n in names:
        rec.count('missing ' + n)
    lost = spec['req'] is not None and (0, None) in first + more

    def judge(a, b):
        if len(a) > len(b):
            a = a[1:]
        for j, (x, y) in enumerate(zip(a, b)):
            if y - x:
                return '%s are new on message %d' % (sorted(y - x), j)
            if not first and len(more) == 1:
                keep = independent(more[0], x, j, spec)
                if keep - y:
                    return '%s are gone from message %d' % (
                        sorted(keep - y), j)
    wrong = vary.compare(one, two, judge)
    data = {'one': one, 'two': two}
    if wrong:
        rec.fail('%s: %s' % ('+'.join(names), wrong), 'without %s: %s' % (
            ', '.join(names), wrong), data)
        return
    rec.count('steps')
    # What must be there all the same
    try:
        for _ in range(2):
            req, resps = rules.judge(two)
            exch = hp.check(two)
            wrong = area.compare(exch, req, resps, KNOWN)
            if not wrong:
                break
    except values.Unsure:
        rec.count('not judged')
    else:
        for kind, n, where in wrong:
            rec.fail('%s %d' % (kind, n), 'without %s: %d is %s on %s' % (
                ', '.join(names), n, kind, where), data)
    a, b = vary.seen(one), vary.seen(two)
    if len(a) > len(b):
        a = a[1:]
    stayed = any(b)
    went = a != b
    rec.count('something stayed', stayed)
    rec.count('something went', went)
    if stayed and went:
        rec.nontrivial((tuple(names), repr(a), repr(b)))
        rec.sample(data)


# The only notices which can depend on these
REASON = {1294}
PAYLOAD = {1036, 1037, 1038, 1039, 1040, 1139, 1140, 1275, 1281}


def independent(piece, ids, j, spec):
    """Those of `ids`, seen on message j, that do not depend on the piece."""
    k, x = piece
    if x is None:               # the request
        return set()
    of_request = spec['req'] and k == 0
    if j != k and not of_request:
        return ids              # Nothing else depends on a response
    if x == 'reason':
        return ids - REASON
    if x in ('scheme', 'version'):
        return ids & PAYLOAD
    return set() if j == k else ids & PAYLOAD
