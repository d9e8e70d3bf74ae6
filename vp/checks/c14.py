"""C14: header values mean the same however they are split over lines."""

import copy

from vp import gen, vary
from vp.ref import values
from vp.ref.values import HEADERS

PID = 'C14'
RULE = ('An exchange is checked in two forms that differ only in how one '
        'header is laid out, and the relation between what is reported on '
        'them is checked on every message: lists split over any number of '
        'lines, joined, with empty elements and white space, mixed with '
        'other headers (same notices but for those about empty elements and '
        'misplaced Forwarded commas); in headers or in trailers (same, but '
        'for the notices on trailers); forbidden in trailers (as if absent, '
        'but for 1026 and notices on the mere name); single-valued headers '
        'repeated (as if only the last was there, but for 1013, 1033 and what '
        'is wrong with the form of the earlier value); malformed lines beside '
        'good ones (what is reported about good ones stays). Forms are '
        'accepted as equal only if the independent parser (vp/ref/values.py) '
        'reads the same list from them. Non-trivial: taking the header away '
        'altogether changes the notices.')
ASSUMPTIONS = ['vp/ref/values.py reads lists as RFC 7230 section 7 does',
               'sets of notice numbers per message are compared, except for '
               '1032 (on the place of Host)']
LISTS = {n for n, x in HEADERS.items() if x.get('kind') == 'multi'}
SINGLES = {n for n, x in HEADERS.items() if x.get('kind') == 'single'}
FORBIDDEN = {n for n, x in HEADERS.items() if x.get('bad_for_trailer')}
FORM = {1014, 1151, 1297}
NAMED = {1063, 1064, 1197, 1277, 1052, 1053, 1127, 1146,
         1130, 1131}
PAYLOAD = {1036, 1037, 1038, 1039, 1040, 1139, 1140, 1275, 1281}
EXTRA = {       # headers that are worth adding to a request / a response
    'req': ['Accept', 'Cache-Control', 'Connection', 'Forwarded', 'If-Match',
            'If-None-Match', 'Pragma', 'Prefer', 'TE', 'Upgrade', 'Via',
            'Transfer-Encoding', 'Content-Encoding', 'Accept-Encoding',
            'Trailer', 'Warning', 'Link', 'Accept-Charset', 'Accept-Language'],
    'resp': ['Allow', 'Accept-Ranges', 'Cache-Control', 'Connection',
             'Content-Encoding', 'Link', 'Preference-Applied', 'Vary', 'Via',
             'Proxy-Authenticate', 'WWW-Authenticate', 'Transfer-Encoding',
             'Upgrade', 'Warning', 'Alt-Svc', 'Accept-Patch', 'Trailer',
             'Accept-Post', 'Content-Language']}


def plan(tier):
    k = 1 if tier == 'quick' else 12
    return [('split', 9000 * k, 250), ('trailer', 3000 * k, 250),
            ('forbidden', 2000 * k, 250), ('repeat', 4000 * k, 250),
            ('malformed', 3000 * k, 250)]


def REQUIRE(tier):
    r = {'split': 4000, 'trailer': 1200, 'forbidden': 1000, 'repeat': 2000,
         'malformed': 1500, 'matters': 1500, 'in 3 lines or more': 800,
         'split with empties': 600, 'split with unknown': 60}
    for n in LISTS - {'httpolice-silence'}:
        r['list ' + n] = 15
    for n in SINGLES:
        r['single ' + n] = 8
    for n in FORBIDDEN:
        r['forbidden ' + n] = 8
    return r


def pieces(name, raw):
    """Raw elements of a list."""
    s = raw.decode('latin-1')
    return [x.strip(values.WS) for x in values.split(
        s, ',', angle=name in ('link',), parens=name == 'via')]


def reading(name, raws):
    """The list that these lines stand for together, or None."""
    out = []
    for raw in raws:
        p = values.parse(name, raw)
        if p is None or not isinstance(p.value, list):
            return None
        out += p.value
    return repr(out)


def arrange(rng, name, raws, rec):
    """The same list on other lines, or None."""
    elems = [x for raw in raws for x in pieces(name, raw) if x]
    if len(elems) > 30:
        return None
    want = reading(name, raws) if name in LISTS else None
    k = rng.choice([1, 1, 2, 3, len(elems)]) if rng.random() < .8 else \
        rng.randrange(1, len(elems) + 2)
    cuts = sorted(rng.randrange(len(elems) + 1) for _ in range(k - 1))
    if k >= len(elems):
        cuts = list(range(1, len(elems)))
    parts = [elems[a:b] for a, b in zip([0] + cuts, cuts + [len(elems)])]
    sep = rng.choice([[', '], [','], [' ,'], [', ', ',', '\t,\t', ' , '],
                      [', ', ',,', ', ,', ',\t, ,']])
    out = []
    for part in parts:
        s = ''.join(x + (rng.choice(sep) if j < len(part) - 1 else '')
                    for j, x in enumerate(part))
        if rng.random() < .1:
            s = rng.choice([',', ' , ', ', ']) + s
        if rng.random() < .1:
            s += rng.choice([',', ' , ', ' ,'])
        # (no white space can be around a value)
        out.append(s.strip(values.WS).encode('latin-1'))
    if name in LISTS:
        if want is None or reading(name, out) != want:
            return None
    elif any(not x for x in out):
        return None
    if out == raws:
        return None
    return out


def host_first(headers):
    """The first place where other headers can go (see notice 1032)."""
    return 1 if headers and headers[0][0].lower() == 'host' else 0


def lay(rng, headers, name, raws):
    """Put these lines, in order, where lines of that name may be."""
    spell = [n for n, _ in headers if n.lower() == name]
    rest = [(n, v) for n, v in headers if n.lower() != name]
    low = host_first(headers)
    where = sorted(rng.randrange(low, len(rest) + 1) for _ in raws)
    if rng.random() < .4:
        first = vary.find(headers, name)[0]
        first = sum(1 for n, _ in headers[:first] if n.lower() != name)
        where = [first] * len(raws)
    out = []
    for k in range(len(rest) + 1):
        for w, v in zip(where, raws):
            if w == k:
                out.append((gen.recase(rng.choice(spell), rng)
                            if rng.random() < .3 else spell[0], v))
        if k < len(rest):
            out.append(rest[k])
    return out


def side(spec, k):
    return 'req' if k == 0 and spec['req'] else 'resp'


def enrich(rng, spec):
    """More lines of lists, so that there is something to lay out."""
    for k, m in enumerate(vary.messages(spec)):
        while rng.random() < .5:
            there = [n.lower() for n, _ in m['headers'] if n.lower() in LISTS]
            if there and rng.random() < .5:
                name = HEADERS[rng.choice(there)]['name']
            elif rng.random() < .8:
                name = rng.choice(EXTRA[side(spec, k)])
            else:
                name = HEADERS[rng.choice(sorted(LISTS))]['name']
            if name.lower() == 'httpolice-silence':
                continue
            m['headers'].insert(
                rng.randrange(len(m['headers']) + 1),
                (name, gen.clean_value(gen.value(name, rng, .05))))
    return spec


def case(shard, i, rng, rec):
    spec = vary.base(rng)
    while not vary.messages(spec):
        spec = vary.base(rng)
    spec = vary.unsilence(enrich(rng, spec))
    try:
        {'split': split, 'trailer': trailer, 'forbidden': forbidden,
         'repeat': repeat, 'malformed': malformed}[shard](rng, spec, rec)
    except values.Unsure:
        rec.count('not judged')


def differ(ignore=frozenset()):
    def judge(a, b):
        wrong = ['%s message %d' % (sorted((x ^ y) - ignore), k)
                 for k, (x, y) in enumerate(zip(a, b)) if (x ^ y) - ignore]
        return ', '.join(wrong)
    return judge


def tell(rec, kind, name, spec, other, judge, **kw):
    def unplaced(a, b):
        return judge([x - {1032} for x in a], [x - {1032} for x in b])
    wrong = vary.compare(spec, other, unplaced)
    rec.count(kind)
    if wrong:
        rec.fail('%s %s' % (kind, name), '%s: notices differ: %s' % (
            name, wrong), dict(kw, one=spec, other=other))
        return False
    return True


def matters(rec, spec, k, name):
    """Did that header have any influence?"""
    bare = copy.deepcopy(spec)
    m = vary.messages(bare)[k]
    m['headers'] = [h for h in m['headers'] if h[0].lower() != name]
    a, b = vary.seen(copy.deepcopy(spec)), vary.seen(bare)
    if a != b:
        rec.count('matters')
        rec.nontrivial((name, repr(vary.messages(spec)[k]['headers'])))
        rec.sample(spec)


def values_of(m, name):
    return [v for n, v in m['headers'] if n.lower() == name]


def split(rng, spec, rec):
    ms = vary.messages(spec)
    other = copy.deepcopy(spec)
    done = []
    for k, m in enumerate(vary.messages(other)):
        for name in sorted({n.lower() for n, _ in m['headers']}):
            known = name in LISTS
            if not known and (HEADERS.get(name, {}).get('kind') or
                              name in ('set-cookie', 'cookie')):
                continue
            if rng.random() < .3:
                continue
            raws = arrange(rng, name, values_of(m, name), rec)
            if raws is None:
                continue
            m['headers'] = lay(rng, m['headers'], name, raws)
            done.append((k, name, raws))
            rec.count('list ' + name if known else 'split with unknown')
            if len(raws) > 2:
                rec.count('in 3 lines or more')
            if any(not x for r in raws for x in pieces(name, r)):
                rec.count('split with empties')
    if not done:
        rec.count('nothing to split')
        return
    names = '+'.join(sorted({n for _, n, _ in done}))
    tell(rec, 'split', names, spec, other, differ(FORM))
    k, name, _ = rng.choice(done)
    if rng.random() < .3:
        matters(rec, spec, k, name)


def chunked(rng, m):
    """Make it a message with trailers."""
    m['version'] = 'HTTP/1.1'
    if m['body'] is None or m['body'] == b'':
        m['body'] = b'hello'
    m['headers'] = [h for h in m['headers'] if h[0].lower() not in (
        'content-length', 'transfer-encoding')]
    m['headers'].insert(rng.randrange(len(m['headers']) + 1),
                        ('Transfer-Encoding', b'chunked'))
    # Else the first one that appears there gets its own notices
    m['trailers'] = list(m.get('trailers') or []) + [('X-Vp-End', b'1')]


def trailer(rng, spec, rec):
    """In the header section or in the trailer section."""
    ms = vary.messages(spec)
    k = rng.randrange(len(ms))
    m = ms[k]
    chunked(rng, m)
    names = sorted({n.lower() for n, _ in m['headers']
                    if values.TOKEN.fullmatch(n)} - FORBIDDEN)
    if rng.random() < .6:
        names = [n for n in names if n in HEADERS] or names
    if not names:
        rec.count('nothing to move')
        return
    name = rng.choice(names)
    lines = vary.find(m['headers'], name)
    # all of them or the last ones
    keep = rng.choice([0, 0, rng.randrange(len(lines))])
    m['headers'].append(('Trailer', ('%s, X-Vp-End' % gen.recase(
        name, rng)).encode()))
    other = copy.deepcopy(spec)
    o = vary.messages(other)[k]
    # nothing else of that name may come first
    m['trailers'] = [h for h in m['trailers'] if h[0].lower() != name]
    o['trailers'] = list(m['trailers'])
    moved = [h for j, h in enumerate(m['headers']) if j in lines[keep:]]
    o['headers'] = [h for j, h in enumerate(m['headers'])
                    if j not in lines[keep:]]
    for h in reversed(moved):
        pos = rng.randrange(len(o['trailers']) + 1) if h is moved[-1] else \
            rng.randrange(pos + 1)
        o['trailers'].insert(pos, h)
    tell(rec, 'trailer', name, spec, other, differ(), moved=repr(moved))
    if rng.random() < .3:
        matters(rec, spec, k, name)


def forbidden(rng, spec, rec):
    """As if it was not there."""
    ms = vary.messages(spec)
    k = rng.randrange(len(ms))
    m = ms[k]
    chunked(rng, m)
    there = sorted({n.lower() for n, _ in m['headers']} & FORBIDDEN -
                   {'trailer'})
    name = rng.choice(there) if rng.random() < .3 and there else \
        rng.choice(sorted(FORBIDDEN))
    m['trailers'] = [h for h in m['trailers'] if h[0].lower() != name]
    m['headers'].append(('Trailer', ('%s, X-Vp-End' % gen.recase(
        name, rng)).encode()))
    other = copy.deepcopy(spec)
    o = vary.messages(other)[k]
    spell = gen.recase(HEADERS[name]['name'], rng)
    for _ in range(rng.choice([1, 1, 2])):
        o['trailers'].insert(rng.randrange(len(o['trailers']) + 1), (
            spell, gen.clean_value(gen.value(spell, rng, .2))))

    # What goes by names alone: number of Hosts, kinds of preconditions
    elsewhere = {1033} if name == 'host' else \
        {1124, 1125, 1128, 1129, 1200} if HEADERS[name].get('precondition') else set()

    def judge(a, b):
        for j, (x, y) in enumerate(zip(a, b)):
            if j != k and (x ^ y) - elsewhere:
                return '%r on another message (%d)' % (sorted(x ^ y), j)
            if j == k and 1026 not in y:
                return '1026 is missing'
            if j == k and (x - y or y - x - {1026} - NAMED):
                return '%r' % sorted((x ^ y) - {1026} - NAMED)
    tell(rec, 'forbidden', name, spec, other, judge)
    rec.count('forbidden ' + name)


def repeat(rng, spec, rec):
    """The last one counts."""
    ms = vary.messages(spec)
    cand = [(k, name) for k, m in enumerate(ms)
            for name in {n.lower() for n, _ in m['headers']}
            if name in SINGLES]
    if rng.random() < .5 or not cand:
        k = rng.randrange(len(ms))
        name = rng.choice(sorted(SINGLES))
        if not vary.find(ms[k]['headers'], name):
            spell = HEADERS[name]['name']
            ms[k]['headers'].append((spell, gen.clean_value(
                gen.value(spell, rng, .05))))
    else:
        k, name = rng.choice(sorted(cand))
    m = ms[k]
    spell = HEADERS[name]['name']
    other = copy.deepcopy(spec)
    o = vary.messages(other)[k]
    lines = vary.find(m['headers'], name)
    drop = lines[:-1]
    m['headers'] = [h for j, h in enumerate(m['headers']) if j not in drop]
    pos = vary.find(o['headers'], name)[-1]
    for _ in range(rng.choice([1, 1, 1, 2, 4])):
        v = gen.clean_value(gen.value(spell, rng, .15))
        if rng.random() < .1:
            v = o['headers'][pos][1]
        low = min(pos, host_first(o['headers']))
        o['headers'].insert(rng.randrange(low, pos + 1),
                            (gen.recase(spell, rng), v))
        pos += 1
    must, may = {1013}, set()
    lines = vary.find(o['headers'], name)[:-1]
    last = m['headers'][vary.find(m['headers'], name)[0]][1]
    for v in [o['headers'][j][1] for j in lines]:
        p = values.parse(name, v)
        if p is None:
            must.add(1000)
        else:
            must |= p.must
            may |= p.may
    elsewhere = {1033} if name == 'host' else set()

    def judge(a, b):
        for j, (x, y) in enumerate(zip(a, b)):
            extra = y - x - (elsewhere if j != k else must | may)
            gone = (x - y) | ((must - y) if j == k else set())
            if extra or gone:
                return '%r too many, %r missing on message %d' % (
                    sorted(extra), sorted(gone), j)
    tell(rec, 'repeat', name, spec, other, judge)
    rec.count('single ' + name)
    if rng.random() < .3:
        matters(rec, spec, k, name)


def malformed(rng, spec, rec):
    """Well-formed lines count although there are malformed ones."""
    ms = vary.messages(spec)
    cand = [(k, name) for k, m in enumerate(ms)
            for name in {n.lower() for n, _ in m['headers']}
            if name in LISTS and
            reading(name, values_of(m, name)) not in (None, '[]')]
    if not cand:
        rec.count('nothing to add to')
        return
    k, name = rng.choice(sorted(cand))
    spell = HEADERS[name]['name']
    other = copy.deepcopy(spec)
    o = vary.messages(other)[k]
    for _ in range(rng.choice([1, 1, 2])):
        for _ in range(8):
            v = gen.clean_value(rng.choice([
                lambda: gen.mutate(gen.nice_value(spell, rng), rng),
                lambda: b'"', lambda: b'a b', lambda: b'a;=', lambda: b'<',
                lambda: b'=', lambda: b'(((', lambda: b'a,"b'])())
            if values.parse(name, v) is None:
                o['headers'].insert(rng.randrange(host_first(
                    o['headers']), len(o['headers']) + 1),
                                    (gen.recase(spell, rng), v))
                break
    if len(o['headers']) == len(ms[k]['headers']):
        rec.count('nothing malformed')
        return

    # It is not known how to decode the body then
    gone = PAYLOAD if name in ('content-encoding', 'transfer-encoding') \
        else set()
    new = {1000, 1244} if name == 'te' else {1000}

    def judge(a, b):
        for j, (x, y) in enumerate(zip(a, b)):
            if x - y - (gone if j == k else set()):
                return '%r are gone from message %d' % (sorted(x - y), j)
            if y - x - (new if j == k else set()):
                return '%r are new on message %d' % (sorted(y - x), j)
            if j == k and 1000 not in y:
                return 'no 1000'
    tell(rec, 'malformed', name, spec, other, judge)
    if rng.random() < .3:
        matters(rec, spec, k, name)
