"""C24: the text report shows exactly the notices, safely."""

import json
import os
import re
from collections import Counter

from vp import hostile, hp, htmlrep, textrep

PID = 'C24'
RULE = ('Sequences of exchanges with hostile text in every place the API takes '
        'text (methods, targets, versions, reasons, names, values, quoted '
        'strings, bodies, remarks, trailers), and damaged captures with '
        'complaint boxes; the text report is parsed back strictly and compared, '
        'section by section, with the recorded notices, the start lines that '
        'went in, the documented title templates and the titles of the HTML '
        'report. Non-trivial: hostile text and a notice in the report.')
ASSUMPTIONS = ['vp/ref/notices.json holds the documented titles and severities']
with open(os.path.join(os.path.dirname(__file__), '..', 'ref',
                       'notices.json')) as _f:
    NOTICES = json.load(_f)
TITLES = {int(k): re.compile(''.join(
    '(.*)' if isinstance(x, list) else
    re.sub(r'(\\ )+', r'\\s*', re.escape(textrep.plain('|%s|' % x)[1:-1]))
    for x in v['title']), re.S) for k, v in NOTICES.items()}
REASONS = {200: 'OK', 201: 'Created', 204: 'No Content', 304: 'Not Modified',
           400: 'Bad Request', 404: 'Not Found', 500: 'Internal Server Error',
           301: 'Moved Permanently', 206: 'Partial Content', 100: 'Continue',
           101: 'Switching Protocols', 401: 'Unauthorized', 403: 'Forbidden',
           405: 'Method Not Allowed', 412: 'Precondition Failed',
           451: 'Unavailable For Legal Reasons', 503: 'Service Unavailable'}


def plan(tier):
    k = 1 if tier == 'quick' else 15
    return [('mix', 2400 * k, 100)]


def REQUIRE(tier):
    return {'notices': 20000, 'sections': 5000, 'markers with controls': 150,
            'boxes': 100, 'ellipsized': 60, 'unknown request': 30,
            'several exchanges': 500, 'quiet messages': 200}


def wild(s):
    """A pattern for text as printed: anything unprintable may be replaced."""
    out = []
    for c in s:
        n = ord(c)
        if n < 32 or 0x7f <= n < 0xa0 or 0xd800 <= n < 0xe000 or \
                0xfdd0 <= n < 0xfdf0 or n & 0xfffe == 0xfffe:
            out.append('[^\n]')
        else:
            out.append(re.escape(c))
    return out


def marker_ok(got, want, limit, strip=False):
    """Is `got` the line `want`, or its beginning and an ellipsis?"""
    pats = wild(want)
    if re.fullmatch(''.join(pats), got):
        return len(got) <= limit
    if got.endswith('...') and limit - 3 <= len(got) <= limit and \
            len(pats) > limit:
        return bool(re.fullmatch(''.join(pats[:len(got) - 3]), got[:-3]))
    return False


def case(shard, i, rng, rec):
    mix = hostile.mixture(rng)
    exchs = [e for _, e in mix]
    spec = [s if s else hp.all_ids(e) for s, e in mix]
    data = hp.report('text', exchs)
    try:
        shown = textrep.read(data)
    except textrep.Malformed as e:
        rec.fail('malformed', '%s' % e, spec)
        return
    if len(exchs) > 1:
        rec.count('several exchanges')
    html = htmlrep.read(hp.report('html', exchs))
    # what has to be there, in order
    want = []
    for s, e in mix:
        if not hp.flat_ids(e):
            rec.count('quiet messages')
            continue
        want.append((s, e))
    if len(want) != len(shown):
        rec.fail('exchanges', '%d exchanges shown, %d have notices' % (
            len(shown), len(want)), spec)
        return
    html = [h for h in html if h['notices'] or
            any(m['notices'] for m in h['messages'])]
    for (s, e), sec, h in zip(want, shown, html):
        if not judge(rec, s, e, sec, h, spec):
            return


def title_key(notices):
    return Counter((n['sev'], n['id'], textrep.plain(
        ' '.join(n['title'].split()))) for n in notices)


def printed(notices):
    return Counter((s, n, textrep.plain(t)) for s, n, t in notices)


def judge(rec, spec, exch, sec, html, whole):
    q, resps = exch.request, list(exch.responses)
    rec.count('sections', 1 + len(sec['responses']))
    if spec is not None and spec['req'] is not None:
        want = '%s request: %s %s' % (textrep.MARK, spec['req']['method'],
                                      spec['req']['target'])
    elif q is not None:
        want = '%s request: %s %s' % (textrep.MARK, q.method, q.target)
    elif resps:
        want = textrep.MARK + ' unknown request'
        rec.count('unknown request')
    else:
        want = textrep.MARK
        rec.count('boxes')
    if not marker_ok(sec['marker'], want, 79):
        rec.fail('request marker', 'exchange introduced as %r, expected %r' % (
            sec['marker'], want), whole)
        return False
    if sec['marker'].endswith('...'):
        rec.count('ellipsized')
    if any(ord(c) < 32 for c in want):
        rec.count('markers with controls')
    # sections of messages which have notices
    parts = [(None, q)] + list(enumerate(resps))
    htmls = ([None] if q is None else []) + html['messages']
    expect = []
    for k, m in parts:
        n = hp.ids(m) if m is not None else []
        if k is None or n:
            expect.append((k, m, n))
        else:
            rec.count('quiet messages')
    if len(expect) - 1 != len(sec['responses']):
        rec.fail('responses', '%d responses shown, %d have notices' % (
            len(sec['responses']), len(expect) - 1), whole)
        return False
    for j, ((k, m, n), got) in enumerate(zip(expect, [sec] + sec['responses'])):
        hs = htmls[0 if k is None else k + 1]
        want_titles = title_key(hs['notices'] if hs else [])
        if j == len(expect) - 1:
            n = sorted(n + hp.ids(exch))
            want_titles += title_key(html['notices'])
        rec.count('notices', len(n))
        if sorted(x[1] for x in got['notices']) != n:
            rec.fail('notices', 'under %r: %r shown, %r recorded' % (
                got['marker'], sorted(x[1] for x in got['notices']), n), whole)
            return False
        for s, num, title in got['notices']:
            doc = NOTICES.get(str(num))
            if doc is None:
                continue
            if textrep.SEVERITY[s] != doc['severity']:
                rec.fail('severity', '%d shown as %s' % (num, s), whole)
                return False
            if not TITLES[num].fullmatch(textrep.plain(title)):
                rec.fail('title', '%d shown as %r' % (num, title), whole)
                return False
        if printed(got['notices']) != want_titles:
            a, b = printed(got['notices']), want_titles
            rec.fail('titles differ', 'text has %r, HTML has %r' % (
                sorted(a - b), sorted(b - a)), whole)
            return False
        if n and any(ord(c) < 32 or ord(c) > 126 for c in repr(whole)):
            rec.nontrivial((got['marker'], tuple(n)))
        if k is not None:
            reason = m.reason if spec is None else spec['resps'][k]['reason']
            status = int(m.status) if spec is None else \
                spec['resps'][k]['status']
            mk = got['marker']
            if reason:
                want = '%s response: %d %s' % (textrep.MARK, status, reason)
                good = marker_ok(mk, want, 60)
            elif status in REASONS:
                good = mk == '%s response: %d %s' % (textrep.MARK, status,
                                                     REASONS[status])
            else:
                good = re.match('%s response: %d ' % (textrep.MARK, status), mk)
            if not good:
                rec.fail('response marker', 'response %d %r introduced as %r' % (
                    status, reason, mk), whole)
                return False
    return True
