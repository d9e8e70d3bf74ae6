"""What the checks of C15-C20 share: exchanges judged by vp/ref/rules.py."""

import os
import random
import time

from vp import focus, gen, hp
from vp.ref import rules, values

ZONES = ['UTC', 'JST-9', 'PST8PDT', 'XXX+11:30', 'YYY-13']
RULE = ('Exchanges come from a general generator (any headers, any method and '
        'status, values from nice to mutated to grammar-derived to random) '
        'and from a recipe aimed at this area (vp/focus.py). The notice '
        'monitor compares the notices of this area reported on every message '
        'with those which an independent judge (vp/ref/rules.py over the '
        'parser in vp/ref/values.py, the grammar in vp/ref/http.abnf and the '
        'table in vp/ref/registry.json) says must or may be there: none '
        'missed, none extra. Non-trivial: at least one notice of the area is '
        'due.')
ASSUMPTIONS = ['vp/ref states the documented conditions of the notices '
               '(where two readings are right, either is accepted)',
               'values beyond the generators are not observed']


def plan(tier):
    n = 14000 if tier == 'quick' else 130000
    return [('aimed', n, 250), ('general', n // 3, 250)]


def require(pid, rare, tier):
    r = {'messages': 15000}
    for n in rules.AREAS[pid]:
        r['due %d' % n] = rare.get(n, 8)
        r['not due %d' % n] = 1000
    return {k: v for k, v in r.items() if v}


def setup(shard, rec):
    # Nothing may depend on the local time zone.
    os.environ['TZ'] = random.choice(ZONES)


def unsilence(spec):
    for m in ([spec['req']] if spec['req'] else []) + spec['resps']:
        m['headers'] = [h for h in m['headers']
                        if h[0].lower() != 'httpolice-silence']


def case(pid, shard, i, rng, rec):
    os.environ['TZ'] = rng.choice(ZONES)
    time.tzset()
    area = set(rules.AREAS[pid])
    if shard == 'aimed':
        spec = focus.RECIPES[pid](rng)
    else:
        spec = gen.exchange(rng, rng.choice([0, .05, .05, .25]))
    unsilence(spec)
    for attempt in (1, 2):
        # The clock can only matter at the second; so look again if in doubt.
        exch = hp.check(spec)
        try:
            req, resps = rules.judge(spec)
        except values.Unsure:
            rec.count('not judged')
            return
        wrong = compare(exch, req, resps, area)
        if not wrong:
            break
    for kind, n, where in wrong:
        rec.fail('%s %d' % (kind, n), 'notice %d is %s on %s' % (
            n, 'not reported' if kind == 'missed' else 'reported', where),
            spec)
    if exch.notices:
        rec.fail('exchange notice', 'notices on the exchange itself: %r' %
                 hp.ids(exch), spec)
    due = set()
    for m in ([req] if req else []) + resps:
        rec.count('messages')
        for n in area:
            if n in m.must:
                due.add(n)
                rec.count('due %d' % n)
            elif n not in m.may:
                rec.count('not due %d' % n)
    if due:
        rec.nontrivial((sorted(due), [(m.kind, m.d.get('method'),
                                       m.d.get('status'))
                                      for m in ([req] if req else []) + resps],
                        len(repr(spec))))
        rec.sample(spec)


def compare(exch, req, resps, area):
    objs = [('request', exch.request, req)] if req else []
    objs += [('response %d' % k, a, b) for k, (a, b)
             in enumerate(zip(exch.responses, resps))]
    wrong = []
    for where, obj, m in objs:
        got = {n.id for n in obj.notices} & area
        wrong += [('missed', n, where)
                  for n in sorted((m.must & area) - got)]
        wrong += [('extra', n, where)
                  for n in sorted(got - m.must - m.may)]
    return wrong
