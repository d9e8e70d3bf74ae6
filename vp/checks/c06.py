"""C06: well-formed HTTP/1.x streams are reconstructed exactly."""

from vp import hp, wire      # noqa: F401
from vp.ref.framing import FRAMING_IDS

PID = 'C06'
RULE = ('Connections of 1-5 pipelined requests and their responses are '
        'generated from a model (methods, targets, any header octets, bodies '
        'by length / chunks of any size with extensions and trailers / '
        'compressed transfer codings / end of connection / bodiless, interim '
        'responses, 101 and CONNECT endings), serialised, read back with the '
        'streams, combined, req-stream and resp-stream inputs, and compared '
        'with the model. Non-trivial: a body or trailer or several messages.')
ASSUMPTIONS = ['the serialiser in vp/wire.py follows RFC 7230']


def plan(tier):
    n = 4800 if tier == 'quick' else 60000
    return [('pair', n, 100), ('combined', n // 4, 100), ('req', n // 4, 100),
            ('resp', n // 4, 100)]


def REQUIRE(tier):
    return {'messages': 5000, 'chunked': 300, 'length': 300, 'close': 50,
            'coded': 50, 'trailers': 50, 'interim': 300, 'bodiless': 300,
            'ending 1011': 50, 'ending 1012': 50, 'body > 8192': 50}


def compare(rec, kind, got, want, spec):
    for key in want:
        if got[key] != want[key]:
            rec.fail('%s %s' % (kind, key), '%s: %s read as %r, sent as %r' % (
                kind, key, got[key], want[key]), spec)
            return False
    return True


def framing_notices(obj):
    return sorted({n.id for n in obj.notices} & FRAMING_IDS)


def stats(rec, msg):
    rec.count('messages')
    names = [k.lower() for k, _ in msg['headers']]
    if msg['body']:
        te = [v.lower() for k, v in msg['headers']
              if k.lower() == 'transfer-encoding']
        if any(b'chunked' in v for v in te):
            rec.count('chunked')
        elif 'content-length' in names:
            rec.count('length')
        else:
            rec.count('close')
        if any(b'gzip' in v or b'deflate' in v for v in te):
            rec.count('coded')
        if len(msg['body']) > 8192:
            rec.count('body > 8192')
    elif 'content-length' in names or 'transfer-encoding' in names:
        rec.count('bodiless')
    if msg['trailers']:
        rec.count('trailers')


def case(shard, i, rng, rec):
    inb, outb, exchanges, ending = wire.wf_connection(rng)
    spec = {'inbound': inb, 'outbound': outb}
    if shard == 'req':
        got = wire.read(inb, None)
        exchanges = [(q, []) for q, _ in exchanges]
        ending = None
    elif shard == 'resp':
        # Without requests, framing is only reliable if they don't matter.
        outs, want = [], []
        n = rng.choice([1, 2, 3])
        for k in range(n):
            resps = []
            for _ in range(rng.choice([0, 0, 1, 2])):
                r, w, _ = wire.wf_response(None, rng, False, interim=True)
                resps.append(r)
                outs.append(w)
            r, w, _ = wire.wf_response(None, rng, k == n - 1)
            resps.append(r)
            outs.append(w)
            want.append((None, resps))
        outb = b''.join(outs)
        spec = {'outbound': outb}
        got = wire.read(None, outb)
        exchanges = want
        ending = None
    elif shard == 'combined':
        got = wire.read(inb, outb, 'combined')
    else:
        got = wire.read(inb, outb)
    rec.sample(spec)
    if any(len(rs) > 1 or (q and (q['body'] or q['trailers'])) or
           any(r['body'] or r['trailers'] for r in rs) for q, rs in exchanges):
        rec.nontrivial((inb, outb))
    # a request that has no response at all leaves the outbound stream empty
    boxes = [e for e in got if e.request is None and not e.responses]
    allowed = []
    if outb == b'' and shard in ('pair', 'combined'):
        allowed = [1009]
    if [sorted(hp.ids(b)) for b in boxes] not in ([], [allowed]):
        rec.fail('box', 'unexpected framing notices %r' %
                 [hp.ids(b) for b in boxes], spec)
        return
    got = [e for e in got if e not in boxes]
    if len(got) != len(exchanges):
        rec.fail('number', '%d exchanges read, %d sent' %
                 (len(got), len(exchanges)), spec)
        return
    for n, (exch, (q, rs)) in enumerate(zip(got, exchanges)):
        if (exch.request is None) != (q is None):
            rec.fail('request presence', 'exchange %d' % n, spec)
            return
        if q is not None:
            stats(rec, q)
            if not compare(rec, 'request', wire.seen_request(exch.request), q,
                           spec):
                return
            if framing_notices(exch.request):
                rec.fail('request notices', '%r' %
                         framing_notices(exch.request), spec)
                return
        if len(exch.responses) != len(rs):
            rec.fail('number of responses', '%d read, %d sent for request %d' %
                     (len(exch.responses), len(rs), n), spec)
            return
        for k, (resp, r) in enumerate(zip(exch.responses, rs)):
            stats(rec, r)
            if 100 <= r['status'] < 200 and r['status'] != 101:
                rec.count('interim')
            if not compare(rec, 'response', wire.seen_response(resp), r, spec):
                return
            last = n == len(exchanges) - 1 and k == len(rs) - 1
            want = [ending] if last and ending else []
            if want:
                rec.count('ending %d' % ending)
            if framing_notices(resp) != want:
                rec.fail('response notices', '%r instead of %r' %
                         (framing_notices(resp), want), spec)
                return
            if resp.request is not exch.request:
                rec.fail('link', 'response does not refer to its request',
                         spec)
