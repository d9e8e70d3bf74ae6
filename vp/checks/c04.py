"""C04: silencing is an exact filter."""

from collections import Counter

from vp import batch, gen, hp, htmlrep, textrep, wire

PID = 'C04'
RULE = ('Random exchanges are checked plainly and then with sets of reported '
        'and unreported numbers silenced: through the API (on the exchange, the '
        'request, single responses; before, after or on both sides of checking; '
        'any kind of iterable), through HTTPolice-Silence headers on requests '
        '(with and without "resp") and responses, and through -s on captures '
        'and HAR files. Every notice list and both reports must equal the plain '
        'ones minus exactly the silenced numbers on the objects concerned. '
        'Non-trivial: something was silenced and something was left.')
ASSUMPTIONS = ['a number above 8999 in HTTPolice-Silence silences nothing']


def plan(tier):
    k = 1 if tier == 'quick' else 14
    return [('api', 1200 * k, 100), ('header', 1200 * k, 100),
            ('cli', 600 * k, 50)]


def REQUIRE(tier):
    return {'removed': 20000, 'kept': 20000, 'api exch': 500, 'api req': 300,
            'api resp': 300, 'before': 400, 'after': 400, 'both': 200,
            'header req': 500, 'header req resp': 500, 'header resp': 500,
            'cli': 500, 'resps > 1': 300, 'boxes silenced': 50,
            'malformed header': 100}


def lists(exch):
    """[notice IDs of the exchange, of the request, of each response]"""
    return [hp.ids(exch),
            hp.ids(exch.request) if exch.request is not None else []] + \
        [hp.ids(r) for r in exch.responses]


def some_ids(rng, ids):
    ids = sorted(set(ids))
    r = rng.random()
    if not ids or r < .1:
        pick = []
    elif r < .4:
        pick = rng.sample(ids, 1)
    elif r < .5:
        pick = ids
    else:
        pick = rng.sample(ids, rng.randint(1, len(ids)))
    pick += rng.sample(range(1000, 1311), rng.choice([0, 0, 1, 5]))
    rng.shuffle(pick)
    return pick


def compare(rec, how, before, silenced, exch, spec):
    got = lists(exch)
    want = [[n for n in b if n not in s] for b, s in zip(before, silenced)]
    removed = sum(map(len, before)) - sum(map(len, want))
    rec.count('removed', removed)
    rec.count('kept', sum(map(len, want)))
    if removed and any(want):
        rec.nontrivial(spec)
        rec.sample(spec)
    for k, (g, w) in enumerate(zip(got, want)):
        if g != w:
            extra = list((Counter(g) - Counter(w)).elements())
            lost = list((Counter(w) - Counter(g)).elements())
            what = 'exchange' if k == 0 else 'request' if k == 1 else \
                'response %d' % (k - 2)
            rec.fail('%s: %s %s' % (how, what.split()[0],
                                    'extra' if extra else 'lost'),
                     '%s: on the %s: not silenced %r, lost %r' % (
                         how, what, extra, lost), spec)
            return False
    # the severities shown by the API are of the same notices
    for obj in [exch] + [m for m in [exch.request] + list(exch.responses)
                         if m is not None]:
        if sorted(n.id for n in obj.notices) != hp.ids(obj):
            rec.fail('unstable', 'notices change when listed again', spec)
    return reports(rec, how, want, exch, spec)


def reports(rec, how, want, exch, spec):
    sections = htmlrep.read(hp.report('html', [exch]))
    if exch.request is None and not exch.responses and not want[0]:
        if sections:
            rec.fail('html empty', 'an empty exchange is shown', spec)
        return True
    sec, = sections
    html = [sorted(n['id'] for n in sec['notices'])] + \
        ([[]] if exch.request is None else []) + \
        [sorted(n['id'] for n in m['notices']) for m in sec['messages']]
    if html != want:
        rec.fail('%s: html' % how, 'HTML report has %r, expected %r' % (
            html, want), spec)
        return False
    text = textrep.read(hp.report('text', [exch]))
    want_text = [sorted(want[1])] + [sorted(w) for w in want[2:] if w]
    want_text[-1] = sorted(want_text[-1] + want[0])
    got_text = [sorted(n for _, n, _ in x['notices'])
                for e in text for x in [e] + e['responses']]
    if got_text != want_text and not (got_text == [] and
                                      not any(want_text)):
        rec.fail('%s: text' % how, 'text report has %r, expected %r' % (
            got_text, want_text), spec)
        return False
    return True


def iterable(rng, xs):
    return rng.choice([list, tuple, set, frozenset, iter,
                       lambda ys: (y for y in ys),
                       lambda ys: dict.fromkeys(ys).keys(),
                       lambda ys: map(int, ys)])(xs)


def a_spec(rng):
    spec = gen.exchange(rng, .4)
    if rng.random() < .3:
        spec['resps'] += [gen.response(rng, .4)
                          for _ in range(rng.randint(1, 2))]
    for m in [spec['req']] + spec['resps']:
        if m:
            m['headers'] = [h for h in m['headers']
                            if h[0].lower() != 'httpolice-silence']
            m['trailers'] = [h for h in m.get('trailers') or []
                             if h[0].lower() != 'httpolice-silence']
    return spec


def api(i, rng, rec):
    spec = a_spec(rng)
    plain = hp.check(spec)
    before = lists(plain)
    if len(spec['resps']) > 1:
        rec.count('resps > 1')
    for _ in range(2):
        exch = hp.build(spec)
        silenced = [set() for _ in before]
        acts = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            target = rng.choice(['exch', 'exch', 'req', 'resp', 'resp'])
            if target == 'exch':
                k, own = 0, [x for b in before for x in b]
            elif target == 'req':
                if spec['req'] is None:
                    continue
                k, own = 1, before[1]
            else:
                if not spec['resps']:
                    continue
                k = 2 + rng.randrange(len(spec['resps']))
                own = before[k]
            pick = some_ids(rng, own if rng.random() < .7 else
                            [x for b in before for x in b])
            acts.append((k, pick, rng.random()))
        when = rng.choice(['before', 'after', 'both'])
        cut = {'before': 1, 'after': 0, 'both': .5}[when]

        def act(a):
            k, pick, _ = a
            obj = [exch, exch.request] + list(exch.responses)
            obj[k].silence(iterable(rng, pick))
            rec.count('api ' + ['exch', 'req', 'resp'][min(k, 2)])
            for j in range(len(silenced)):
                if k == 0 or j == k:
                    silenced[j].update(pick)

        for a in acts:
            if a[2] < cut:
                act(a)
        hp.httpolice.check_exchange(exch)
        for a in acts:
            if a[2] >= cut:
                act(a)
        rec.count(when)
        if not compare(rec, 'api ' + when, before, silenced, exch,
                       {'spec': spec, 'acts': acts, 'when': when}):
            return
    # silencing an existing exchange, step by step
    silenced = [set() for _ in before]
    for _ in range(2):
        pick = some_ids(rng, [x for b in before for x in b])
        plain.silence(iterable(rng, pick))
        for s in silenced:
            s.update(pick)
        if not compare(rec, 'api later', before, silenced, plain,
                       {'spec': spec, 'silenced': [sorted(s) for s in silenced]}):
            return


def silence_value(rng, picks):
    """picks: [(number, 'resp' or None)] -> header value(s)"""
    items = [b'%d' % n + (rng.choice([b' ', b' ', b'  ', b'\t']) + b'resp'
                          if f else b'') for n, f in picks]
    lines = [[]]
    for it in items:
        if rng.random() < .1:
            lines.append([])
        lines[-1].append(it)
    return [rng.choice([b', ', b',', b' , ', b', , ']).join(x)
            for x in lines if x]


def header(i, rng, rec):
    spec = a_spec(rng)
    q, resps = spec['req'], spec['resps']
    probe = lists(hp.check(spec))
    # what each message will ask to silence
    asks = []
    every = [x for b in probe for x in b]
    if q is not None and rng.random() < .7:
        asks.append((q, 1, [(n, None) for n in some_ids(rng, probe[1])] +
                     [(n, 'resp') for n in some_ids(
                         rng, [x for b in probe[2:] for x in b] or every)]))
    for k, r in enumerate(resps):
        if rng.random() < .4:
            asks.append((r, 2 + k, [(n, None)
                                    for n in some_ids(rng, probe[2 + k])]))
    silenced = [set() for _ in probe]
    neutral, real = [], []
    bad = rng.random() < .1
    for msg, k, picks in asks:
        if not picks:
            continue
        rng.shuffle(picks)
        state = rng.getstate()
        vs = silence_value(rng, picks)
        rng.setstate(state)
        ns = silence_value(rng, [(9000 + j % 999, f)
                                 for j, (_, f) in enumerate(picks)])
        name = rng.choice(['HTTPolice-Silence', 'httpolice-silence',
                           'HTTPOLICE-SILENCE'])
        at = rng.randint(0, len(msg['headers']))
        real.append((msg, at, [(name, v) for v in vs]))
        neutral.append((msg, at, [(name, v) for v in ns]))
        if bad:
            real[-1][2][0:1] = [(name, vs[0] + b';x')]
            neutral[-1][2][0:1] = [(name, ns[0] + b';x')]
            rec.count('malformed header')
            if len(vs) > 1:
                bad = None                # which numbers count: not judged
            continue
        for n, f in picks:
            if k == 1 and f:
                rec.count('header req resp')
                for s in silenced[2:]:
                    s.add(n)
            else:
                rec.count('header req' if k == 1 else 'header resp')
                silenced[k].add(n)
    if bad is None:
        return

    def with_headers(adds):
        for msg, at, hs in adds:
            msg['headers'][at:at] = hs
        exch = hp.check(spec)
        data = repr(spec)
        for msg, at, hs in adds:
            del msg['headers'][at:at + len(hs)]
        return exch, data
    before = lists(with_headers(neutral)[0])
    exch, data = with_headers(real)
    compare(rec, 'header', before, silenced, exch, data)


def sections(kind, data):
    """What is shown, by message: [[(sev, number, title)]]"""
    r = []
    if kind == 'text':
        for e in textrep.read(data):
            for x in [e] + e['responses']:
                r.append((x['marker'], sorted((s, n, textrep.plain(t))
                                              for s, n, t in x['notices'])))
        return r
    for e in htmlrep.read(data):
        for m in e['messages'] + [e]:
            r.append((m.get('start'), sorted((n['sev'], n['id'], n['title'])
                                             for n in m['notices'])))
    return r


def cli(i, rng, rec):
    with wire.Tmp() as tmp:
        fmt, paths, what = batch.files(tmp, rng)
        kind = rng.choice(['text', 'html'])
        base = sections(kind, batch.run(fmt, kind, paths).out)
        pick = some_ids(rng, [n for _, ns in base for _, n, _ in ns])
        flags = []
        for x in pick:
            flags += rng.choice([['-s', str(x)], ['--silence=%d' % x]])
        spec = {'fmt': fmt, 'files': what, 'kind': kind, 'silence': pick}
        out = batch.run(fmt, kind, paths, flags)
        got = sections(kind, out.out)
        rec.count('cli')
        want = [(m, [n for n in ns if n[1] not in pick]) for m, ns in base]
        if {1006, 1007, 1008, 1009, 1010} & set(pick) & {
                n for _, ns in base for _, n, _ in ns}:
            rec.count('boxes silenced')
        total = sum(len(ns) for _, ns in base)
        left = sum(len(ns) for _, ns in want)
        rec.count('removed', total - left)
        rec.count('kept', left)
        if 0 < left < total:
            rec.nontrivial((what, pick, kind))
        # A marker may be left out when there is nothing under it
        got = [x for x in got if x[1]]
        want = [x for x in want if x[1]]
        if got != want:
            for g, w in zip(got + [None] * len(want), want + [None] * len(got)):
                if g != w:
                    rec.fail('cli ' + kind, 'with %r silenced: got %r, '
                             'expected %r' % (pick, g, w), spec)
                    return


def case(shard, i, rng, rec):
    {'api': api, 'header': header, 'cli': cli}[shard](i, rng, rec)
