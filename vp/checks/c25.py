"""C25: the HTML report is complete, well-formed and safe."""

import codecs
import gzip
import json
import re
import zlib

from vp import gen, hostile, hp, htmlrep
from vp.checks.c24 import NOTICES, REASONS

PID = 'C25'
RULE = ('Sequences of exchanges with hostile text (markup, controls, line breaks, '
        'entities, lone surrogates) in every place, and damaged captures with '
        'complaint boxes; the HTML report is parsed by a strict reader which '
        'accepts no stray markup, and start lines, header entries, trailers, '
        'bodies, remarks, notices, links and highlighting references are '
        'compared with what went in. Non-trivial: hostile text and a notice.')
ASSUMPTIONS = ['body previews are compared where the charset is declared and '
               'known or the body is ASCII, and there is no content coding']


def plan(tier):
    k = 1 if tier == 'quick' else 15
    return [('mix', 2200 * k, 100)]


def REQUIRE(tier):
    return {'notices': 20000, 'messages': 4000, 'entries': 10000, 'trailers': 300,
            'bodies': 1000, 'bodies compared': 500, 'bodies cut': 50,
            'bodies just as long': 5, 'bodies decoded': 20, 'json bodies cut': 3,
            'unknown bodies': 50, 'remarks': 200, 'boxes': 300,
            'header references': 5000, 'method references': 100,
            'status references': 100, 'json bodies': 3, 'encoded bodies': 20, 'empty report': 5}


def pattern(s, keep='\n\r\t'):
    out = []
    for c in s:
        n = ord(c)
        if c not in keep and (n < 32 or 0x7f <= n < 0xa0 or
                              0xd800 <= n < 0xe000 or 0xfdd0 <= n < 0xfdf0 or
                              n & 0xfffe == 0xfffe):
            out.append('(?s:.)')
        else:
            out.append(re.escape(c))
    return ''.join(out)


def like(got, want):
    return re.fullmatch(pattern(want), got) is not None


SPACE = '[ \t\r\n]+'


def loosely(got, want):
    """As `like`, but white space outside <pre> is as it is rendered."""
    g = re.sub(SPACE, ' ', got).strip(' ')
    w = re.sub(SPACE, ' ', want).strip(' ')
    return re.fullmatch(pattern(w), g) is not None


def value_text(v):
    if isinstance(v, bytes):
        return v.decode('iso-8859-1')
    return v.encode('iso-8859-1', 'replace').decode('iso-8859-1')


class Wrong(Exception):
    pass


def expect(cond, what, fmt='', *args):
    if not cond:
        raise Wrong(what, fmt % args if args else fmt)


def check_entries(kind, shown, want, rec):
    expect(len(shown) == len(want), kind + ' number', '%d shown, %d in the '
           'message: %r, %r', len(shown), len(want), shown, want)
    for (ref, text), (name, value) in zip(shown, want):
        rec.count('entries' if kind == 'header' else 'trailers')
        full = '%s: %s' % (name, value_text(value))
        expect(like(text, full), kind + ' text', '%r shown as %r', full, text)


def declared(m):
    r = [v for n, v in m['headers'] if n.lower() == 'content-type']
    return r[-1] if r else None


def uncoded(m, body, partial):
    """Content codings undone; None if that is not plainly possible."""
    vs = [v for n, v in m['headers'] if n.lower() == 'content-encoding']
    if len(vs) != 1 or partial or not isinstance(body, bytes) or \
            m.get('status') in (103, 206, 304):
        return None
    try:
        if vs[0] in (b'gzip', b'x-gzip'):
            return gzip.decompress(body)
        if vs[0] == b'deflate':
            d = zlib.decompressobj()
            r = d.decompress(body)
            return r if d.eof and not d.unused_data else None
    except (EOFError, OSError, zlib.error):
        pass
    return None


def body_text(m, partial):
    """(the text, None if we cannot tell; is it JSON?)"""
    names = {n.lower() for n, _ in m['headers']} | \
        {n.lower() for n, _ in m.get('trailers') or []}
    ct = declared(m)
    body = m['body']
    if 'content-encoding' in names:
        body = uncoded(m, body, partial)
    if sum(n.lower() == 'content-type' for n, _ in m['headers']) > 1:
        return None, False
    if not isinstance(body, bytes):
        return None, False
    if ct is not None and not isinstance(ct, bytes):
        return None, False
    mtype = re.match(rb'[^;]*', ct or b'')[0].strip().lower()
    is_json = b'json' in mtype
    cs = re.fullmatch(rb'[a-z/]+; charset=([a-z0-9-]+)', ct or b'')
    if cs and cs[1] in (b'utf-8', b'utf-16', b'latin-1'):
        try:
            return body.decode(cs[1].decode()), is_json
        except UnicodeDecodeError:
            return None, is_json
    if all(c < 127 for c in body):
        if ct is None or b'charset' not in ct.lower():
            return body.decode('ascii'), is_json
    return None, is_json


def check_body(m, shown, rec, partial):
    body = m['body']
    if body == b'':
        expect(not shown['body_shown'], 'empty body', 'shown as %r %r',
               shown['body_title'], shown['body'])
        return
    rec.count('bodies')
    if body is None:
        rec.count('unknown bodies')
        expect(shown['body'] is None and shown['body_title'] ==
               'Body is unknown', 'unknown body', 'shown as %r %r',
               shown['body_title'], shown['body'])
        return
    text, is_json = body_text(m, partial)
    if text is None or not isinstance(body, bytes):
        return
    rec.count('bodies compared')
    if text == '':
        return
    expect(shown['body_shown'] and shown['body'] is not None, 'no body',
           '%r is not shown', body[:100])
    got = shown['body']
    if any(n.lower() == 'content-encoding' for n, _ in m['headers']):
        rec.count('encoded bodies')
        expect('removing Content-Encoding' in (shown['body_title'] or ''),
               'coding', 'not said to be removed: %r', shown['body_title'])
    title = shown['body_title'] or ''
    cs = re.fullmatch(b'[a-z/]+; charset=(utf-16|latin-1)', declared(m) or b'')
    if cs and len(text) > 3:
        rec.count('bodies decoded')
        said = re.search('decoding from ([A-Za-z0-9_-]+)', title)
        expect(said and codecs.lookup(said[1]) == codecs.lookup(cs[1].decode()),
               'charset', 'not said to be decoded from %r: %r', cs[1], title)
    if not any(n.lower() == 'transfer-encoding' for n, _ in m['headers'] +
               list(m.get('trailers') or [])):
        expect('removing Transfer-Encoding' not in title, 'coding',
               'said, but not so: %r', title)
    if is_json:
        if 'pretty-printing' in title:
            if 'taking the first' in title and 'replacing' not in title:
                rec.count('json bodies cut')
                expect(len(got) == 1000, 'json cut', '%d characters', len(got))
                want = ''.join(json.dumps(json.loads(text),
                                          ensure_ascii=False).split())
                expect(want.startswith(''.join(got.split())), 'json cut',
                       '%r shown as %r', text, got)
            if 'taking the first' not in title and 'replacing' not in title:
                rec.count('json bodies')
                expect(json.loads(got) == json.loads(text), 'json body',
                       '%r shown as %r', text, got)
            return
    if len(text) > 1000:
        rec.count('bodies cut')
        expect('first 1000 characters' in title, 'cut', 'not said: %r', title)
        text = text[:1000]
    else:
        expect('taking the first' not in title, 'cut', 'said, but not so: %r',
               title)
    if len(text) == 1000:
        rec.count('bodies just as long')
    if any(c in text for c in '\0\x1b\x0c'):
        expect('replacing' in title, 'replaced', 'not said: %r', title)
    elif all(c in '\n\r\t' or 32 <= ord(c) < 127 for c in text):
        expect('replacing' not in title, 'replaced', 'said, but not so: %r',
               title)
    expect(like(got, text), 'body text', '%r shown as %r', text, got)


def check_message(m, shown, rec, partial):
    rec.count('messages')
    if m.get('remark'):
        rec.count('remarks')
        expect(shown['remark'] is not None and
               loosely(shown['remark'], m['remark']), 'remark',
               '%r shown as %r', m['remark'], shown['remark'])
    else:
        expect(shown['remark'] is None, 'remark', 'invented: %r',
               shown['remark'])
    parts = shown['start_parts']
    version = [m['version']] if m['version'] else []
    if 'method' in m:
        want = [m['method'], m['target']] + version
        expect(len(parts) == len(want) and all(map(loosely, parts, want)),
               'request line', '%r shown as %r', want, parts)
    else:
        expect(len(parts) == len(version) + 1 and
               all(map(loosely, parts, version)), 'status line',
               '%r shown as %r', m['version'], parts)
        status, reason = m['status'], m['reason']
        if reason:
            ok = loosely(parts[-1], '%d %s' % (status, reason))
        elif status in REASONS:
            ok = loosely(parts[-1], '%d %s' % (status, REASONS[status]))
        else:
            ok = re.match('%d ' % status, htmlrep.squeeze(parts[-1]) + ' ')
        expect(ok, 'status line', '%d %r shown as %r', status, reason, parts)
    check_entries('header', shown['entries'], m['headers'], rec)
    check_entries('trailer', shown['trailers'], m.get('trailers') or [], rec)
    check_body(m, shown, rec, partial)


NOTICE_TAGS = {'div', 'h3', 'abbr', 'span', 'p', 'a', 'cite', 'q'}


def check_notice(n, rec):
    rec.count('notices')
    doc = NOTICES.get(str(n['id']))
    if doc:
        expect(n['sev'] == doc['severity'][0].upper() and
               n['sev_title'] == doc['severity'] and
               n['class'] == [doc['severity']], 'severity',
               '%d shown as %r %r %r', n['id'], n['sev'], n['sev_title'],
               n['class'])
    for e in n['elem'].walk():
        expect(e.tag in NOTICE_TAGS, 'markup', '<%s> in a notice', e.tag)


def check_refs(exch_shown, rec):
    """Highlighting: unique identifiers, and references that lead home."""
    ids = {}
    for k, m in enumerate(exch_shown['messages']):
        for e in m['elem'].walk():
            r = e.attrs.get('data-ref-id')
            if r is not None:
                expect(r not in ids, 'reference id', '%r is used twice', r)
                ids[r] = (k, e)
    for k, m in enumerate(exch_shown['messages']):
        here = {}
        for ref, text in m['entries'] + m['trailers']:
            here.setdefault(text.partition(':')[0].lower(), set()).add(ref)
        upper = {text.partition(':')[0].lower() for _, text in m['entries']}
        for n in m['notices']:
            check_notice_refs(n, k, here, upper, ids, rec)


def check_notice_refs(n, k, here, upper, ids, rec):
    for e in n['elem'].walk():
        refs = [r for r in e.attrs.get('data-ref-to', '').split() if r in ids]
        text = htmlrep.squeeze(e.text())
        for r in refs:
            kk, target = ids[r]
            if 'header-entry' in target.classes:
                name = target.text().partition(':')[0].strip().lower()
                if text and text.lower() == name:
                    rec.count('header references')
                elif text and ' ' not in text and any(
                        text.lower() == x for x in here):
                    expect(False, 'reference', '%r in notice %d leads to %r',
                           text, n['id'], target.text())
    # what a placeholder for a header stands for is what it leads to
    doc = NOTICES.get(str(n['id']))
    for p in (doc or {}).get('title', []):
        if p not in (['header'], ['place'], ['entry']):
            continue
        spans = [e for e in n['title_elem'].walk()
                 if 'data-ref-to' in e.attrs]
        vs = [q for q in doc['title'] if isinstance(q, list)]
        if len(vs) > 1:             # the others stand for something else
            spans = spans[:1] if vs[0] == p else []
        if n['id'] == 1293:         # not a name at all
            spans = []
        for e in spans:
            name = htmlrep.squeeze(e.text()).lower()
            if name in here:
                refs = set(e.attrs['data-ref-to'].split())
                good = refs & here[name]
                others = {r for r in refs if r in ids} - here[name]
                # (a header that is ignored in the trailer has no reference)
                expect((good or name not in upper) and not others,
                       'reference of ' + p[0],
                       '%r in notice %d: leads to %r, should be among %r',
                       name, n['id'], sorted(refs), sorted(here[name]))
    # methods and status codes that are the ones of this message
    for e in n['elem'].walk():
        refs = [r for r in e.attrs.get('data-ref-to', '').split() if r in ids]
        text = htmlrep.squeeze(e.text())
        for r in refs:
            kk, target = ids[r]
            if target.tag != 'span':
                continue
            shown = htmlrep.squeeze(target.text())
            if 'StatusCode' in target.classes and re.fullmatch('[0-9]+', text):
                rec.count('status references')
                expect(shown.split(' ')[0] == text, 'status reference',
                       '%r in notice %d leads to %r', text, n['id'], shown)
            elif text and text.isupper() and text.isalpha() and \
                    target is not None and shown.isalpha():
                rec.count('method references')
                expect(shown == text, 'method reference',
                       '%r in notice %d leads to %r', text, n['id'], shown)


def case(shard, i, rng, rec):
    mix = hostile.mixture(rng) if i % 100 else []
    exchs = [e for _, e in mix]
    spec = [s if s else hp.all_ids(e) for s, e in mix]
    data = hp.report('html', exchs)
    try:
        root = htmlrep.parse(data)
        shown = htmlrep.read(data)
    except htmlrep.Malformed as e:
        rec.fail('malformed', str(e), spec)
        return
    if not mix:
        rec.count('empty report')
    try:
        head, body = root.elems
        expect([e.attrs['charset'].lower() for e in head.find('meta')
                if 'charset' in e.attrs] == ['utf-8'], 'charset')
        for e in body.walk():
            href = e.attrs.get('href')
            expect(href is None or re.match('https?://[a-z0-9.-]+/', href),
                   'link', '%r', href)
            expect(e.tag not in ('script', 'style', 'base', 'meta', 'link',
                                 'title'), 'markup', '<%s> in the body', e.tag)
            expect(set(e.attrs) <= {'class', 'href', 'title', 'data-ref-id',
                                    'data-ref-to', 'lang', 'id'},
                   'markup', 'attributes %r in the body', sorted(e.attrs))
        want = [(s, e) for s, e in mix
                if e.request is not None or e.responses or hp.ids(e)]
        expect(len(want) == len(shown), 'exchanges', '%d shown, %d there',
               len(shown), len(want))
        for (s, e), x in zip(want, shown):
            msgs = ([e.request] if e.request is not None else []) + \
                list(e.responses)
            expect(len(msgs) == len(x['messages']), 'messages',
                   '%d shown, %d there', len(x['messages']), len(msgs))
            if not msgs:
                rec.count('boxes')
            if s is not None:
                ms = ([s['req']] if s['req'] is not None else []) + s['resps']
                head = s['req'] is None or s['req']['method'] == 'HEAD'
                for m, sh in zip(ms, x['messages']):
                    check_message(m, sh, rec, head)
            for obj, sh in list(zip(msgs, x['messages'])) + [(e, x)]:
                got = sorted(n['id'] for n in sh['notices'])
                expect(got == hp.ids(obj), 'notices', '%r shown, %r recorded',
                       got, hp.ids(obj))
                for n in sh['notices']:
                    check_notice(n, rec)
            check_refs(x, rec)
    except Wrong as e:
        what, text = e.args
        rec.fail(what, '%s: %s' % (what, text), spec)
        return
    if any(hp.flat_ids(e) for e in exchs):
        rec.nontrivial(spec)
    _ = gen
