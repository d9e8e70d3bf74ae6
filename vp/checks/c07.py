"""C07: arbitrary bytes are framed as an independent RFC 7230 reading says."""

from vp import gen, hp, wire
from vp.ref import framing

PID = 'C07'
RULE = ('Well-formed connections damaged by 1-5 mutations at or near line '
        'starts (framing headers, chunk sizes, line ends, start lines, '
        'truncation, over-long lines), streams assembled from snippets, and '
        'random octets; read with all stream inputs; exchanges, bodies, '
        'framing notices and offsets are compared with vp/ref/framing.py. '
        'Non-trivial: the reference finds a framing notice or a message.')
ASSUMPTIONS = ['line limit 16 KiB and body limit 1 GiB are design choices',
               'vp/ref/framing.py is our reading of RFC 7230 Section 3']


def plan(tier):
    n = 8000 if tier == 'quick' else 120000
    return [('pair', n, 200), ('combined', n // 8, 200), ('req', n // 5, 200),
            ('resp', n // 5, 200)]


def REQUIRE(tier):
    r = {'notice %d' % n: 10 for n in framing.FRAMING_IDS}
    r['messages'] = 5000
    return r


def got_items(exchanges):
    items = []
    for e in exchanges:
        if e.request is None and not e.responses:
            for c in e.complaints:
                off = c.context.get('offset') \
                    if c.notice.id in (1007, 1010) else None
                items.append(('box', c.notice.id, off))
            continue
        msgs = []
        for m, f in [(e.request, wire.seen_request)] + \
                [(r, wire.seen_response) for r in e.responses]:
            if m is None:
                msgs.append(None)
                continue
            d = f(m)
            d['notices'] = {n.id for n in m.notices} & framing.FRAMING_IDS
            msgs.append(d)
        items.append(('exchange', msgs[0], msgs[1:]))
    return items


def plain(items):
    r = []
    for it in items:
        if it[0] == 'exchange':
            q = dict(it[1]) if it[1] else None
            rs = [dict(x) for x in it[2]]
            for d in ([q] if q else []) + rs:
                d.pop('offset', None)
            r.append(('exchange', q, rs))
        else:
            r.append(it)
    return r


def first_difference(got, want):
    for n in range(max(len(got), len(want))):
        g = got[n] if n < len(got) else None
        w = want[n] if n < len(want) else None
        if g == w:
            continue
        if g is None or w is None or g[0] != w[0] or g[0] == 'box':
            return 'items', 'item %d: got %r, expected %r' % (n, brief(g),
                                                              brief(w))
        for who, a, b in [('request', g[1], w[1])] + [
                ('response', a, b) for a, b in zip(
                    g[2] + [None] * len(w[2]), w[2] + [None] * len(g[2]))]:
            if a == b:
                continue
            if a is None or b is None:
                return who + ' presence', 'item %d: got %r, expected %r' % (
                    n, a, b)
            for key in b:
                if a.get(key) != b[key]:
                    return who + ' ' + key, 'item %d, %s %s: got %r, ' \
                        'expected %r' % (n, who, key, a.get(key), b[key])
        return 'items', 'item %d differs' % n
    return None


def brief(item):
    if item and item[0] == 'exchange':
        q = item[1]
        return ('exchange', q and q['method'], [r['status'] for r in item[2]])
    return item


def case(shard, i, rng, rec):
    inb, outb = wire.hostile_pair(rng)
    how = 'streams'
    if shard == 'req':
        outb = None
    elif shard == 'resp':
        inb = None
    elif shard == 'combined':
        how = 'combined'
        if wire.COMBINED_OUT in inb:
            return
    want = plain(framing.read(inb, outb, gen.GRAMMAR))
    got = got_items(wire.read(inb, outb, how))
    for it in want:
        if it[0] == 'box':
            rec.count('notice %d' % it[1])
        else:
            for m in ([it[1]] if it[1] else []) + it[2]:
                rec.count('messages')
                for n in m['notices']:
                    rec.count('notice %d' % n)
    spec = {'inbound': inb, 'outbound': outb}
    rec.nontrivial((inb, outb))
    rec.sample(spec)
    diff = first_difference(got, want)
    if diff:
        rec.fail(diff[0], diff[1], spec)
