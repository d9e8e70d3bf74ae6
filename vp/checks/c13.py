"""C13: syntax errors are located and explained exactly."""

import datetime
import re

from vp import gen, hp, htmlrep
from vp.checks import c12
from vp.ref import values

PID = 'C13'
RULE = ('Values that their grammar rejects (for every header with a syntax, for '
        'methods, targets and field names, and for nested arguments), edited or '
        'cut so that the error falls anywhere; the position, the octet found and '
        'the set of octets expected are read from the HTML report and compared '
        'with what a recogniser that tracks every viable continuation says. '
        'For accepted values, the parsed value is compared, leaf by leaf, with '
        'an independent reading. Non-trivial: the error is past the first octet, '
        'or the value is accepted and not empty.')
ASSUMPTIONS = ['vp/ref/http.abnf is a right transcription of the RFCs']
NAMES = [n for n in c12.NAMES if n != 'HTTPolice-Silence']
G = gen.GRAMMAR


def plan(tier):
    k = 1 if tier == 'quick' else 12
    return [('header', 2600 * k, 50), ('start', 1400 * k, 50),
            ('nested', 2400 * k, 50), ('accepted', 2500 * k, 50)]


def REQUIRE(tier):
    r = {'errors': 8000, 'errors inside': 4000, 'errors at end': 1500,
         'could have ended': 1000, 'accepted': 10000}
    for n in NAMES:
        r['error ' + n] = 30
    for n in (1045, 1292, 1293, 1158):
        r['notice %d' % n] = 100
    return r


CHARS = {'tab': 9, 'LF': 10, 'CR': 13, 'space': 32, 'double quote (")': 34,
         "single quote (')": 39, 'comma (,)': 44, 'period (.)': 46,
         'colon (:)': 58, 'semicolon (;)': 59, 'dash (-)': 45}


class Unread(Exception):
    pass


def point(s):
    if re.fullmatch('0x[0-9a-f]{2}', s):
        return int(s, 16)
    if len(s) == 1:
        return ord(s)
    raise Unread('range end %r' % s)


def chars_mask(text):
    """What a description like "A\u2013F or 0 or space" stands for."""
    mask = 0
    for piece in text.split(' or '):
        if piece in CHARS:
            bits = [CHARS[piece]]
        elif '\u2013' in piece and len(piece) > 1:
            a, b = piece.split('\u2013')
            bits = range(point(a), point(b) + 1)
        elif re.fullmatch('0x[0-9a-f]{2}', piece):
            bits = [int(piece, 16)]
        else:
            bits = [ord(c) for c in piece]
        for c in bits:
            if not 0 <= c < 256:
                raise Unread('character in %r' % text)
            mask |= 1 << c
    return mask


def read_error(paras):
    """(position, found octet or None, mask, end allowed) as explained."""
    k = next((k for k, p in enumerate(paras)
              if p.startswith('Parse error at offset ')), None)
    if k is None:
        raise Unread('no parse error in %r' % (paras,))
    m = re.fullmatch(r'Parse error at offset (\d+)\.', paras[k])
    pos = int(m[1])
    k += 1
    if paras[k] == 'Found end of data.':
        found = None
    elif paras[k].startswith('Found: '):
        mask = chars_mask(paras[k][len('Found: '):])
        if mask & mask - 1:
            raise Unread('more than one octet found: %r' % paras[k])
        found = mask.bit_length() - 1
    else:
        raise Unread('what was found? %r' % paras[k])
    mask, end = 0, False
    if k + 1 < len(paras):
        if paras[k + 1] != 'Expected:':
            raise Unread('what was expected? %r' % paras[k + 1:])
        for n, line in enumerate(paras[k + 2:]):
            if n and line.startswith('See also '):
                break
            if n:
                if not line.startswith('or '):
                    raise Unread('expected line %r' % line)
                line = line[3:]
            what = line.partition(' as part of ')[0]
            if what == 'end of data':
                end = True
            else:
                mask |= chars_mask(what)
    return pos, found, mask, end


def expected(rule, value):
    """The same, from the reference; None if the value is right."""
    ok, pos, mask = G.diagnose(rule, value)
    if ok:
        return None
    return (pos, value[pos] if pos < len(value) else None, mask,
            G.matches(rule, value[:pos]))


def show(mask):
    return bytes(c for c in range(256) if mask >> c & 1)


def compare(rec, what, rule, value, paras, spec):
    want = expected(rule, value)
    if want is None:
        rec.count('unexpectedly rejected')       # C12's business
        return
    rec.count('errors')
    if want[1] is None:
        rec.count('errors at end')
    elif want[0]:
        rec.count('errors inside')
    if want[3]:
        rec.count('could have ended')
    if want[0]:
        rec.nontrivial((what, value))
    try:
        got = read_error(paras)
    except (Unread, IndexError, ValueError, TypeError) as e:
        rec.fail('unreadable ' + what, '%s: %r: %s' % (what, value, e), spec)
        return
    for name, g, w in zip(['position', 'found', 'expected', 'end'], got, want):
        if g == w:
            continue
        if name == 'expected':
            g, w = show(g & ~want[2]), show(w & ~got[2])
            text = 'wrongly listed %r, not listed %r' % (g, w)
        else:
            text = 'reported %r, should be %r' % (g, w)
        rec.fail('%s %s' % (name, what), '%s: %r: %s: %s' % (what, value, name,
                                                             text), spec)
        break


def shown(spec):
    e = hp.check(spec)
    ex, = htmlrep.read(hp.report('html', [e])) or [{'messages': []}]
    return ex['messages']


def bad_value(rng, name):
    rule = gen.HEADERS[name][0]
    for _ in range(30):
        r = rng.random()
        if r < .3:
            v = G.gen(rule, rng)[:120]
            v = v[:rng.randint(0, len(v))]
        elif r < .6:
            v = gen.nice_value(name, rng)
            at = rng.randint(0, len(v))
            v = v[:at] + bytes([rng.choice(gen.JUNK)]) + v[at + rng.randint(0, 1):]
        elif r < .7:
            v = gen.nice_value(name, rng)
            v = v[:rng.randint(0, len(v))]
        else:
            v = c12.some_value(rng, name)[:200]
        if not G.matches(rule, v):
            return v
    return None


def header(i, rng, rec):
    names = rng.sample(NAMES, 8)
    sent = {}
    for name in names:
        v = bad_value(rng, name)
        if v is not None:
            sent[name] = v
    hs = list(sent.items())
    if rng.random() < .5:
        spec = {'req': hp.req('GET', '/', hs), 'resps': []}
    else:
        spec = {'req': None, 'resps': [hp.resp(200, hs, None)]}
    msg, = shown(spec)
    ids = {text.partition(':')[0]: ref for ref, text in msg['entries']}
    names_by_ref = {ids[n]: n for n in sent if n in ids}
    seen = set()
    for n in msg['notices']:
        if n['id'] != 1000:
            continue
        refs = {names_by_ref[r] for r in n['refs'] if r in names_by_ref}
        title = [x for x in sent if x in n['title'].split()]
        name = title[0] if len(title) == 1 else None
        if name is None or (refs and refs != {name}):
            rec.fail('which', 'error of which header? %r, refers to %r' % (
                n['title'], refs), spec)
            continue
        seen.add(name)
        rec.count('error ' + name)
        compare(rec, name, gen.HEADERS[name][0], sent[name], n['paras'], spec)
    for name in set(sent) - seen:
        rec.count('unexpectedly accepted')       # C12's business


def start(i, rng, rec):
    method = rng.choice(['GET', 'CONNECT', 'OPTIONS', 'FOO'])
    what = rng.choice(['method', 'target', 'target', 'name'])
    hs = []
    tgt = b'/'
    if what == 'method':
        v = gen.mutate(rng.choice([b'GET', b'm-search', b'', b'A' * 20]), rng)
        method = v.decode('latin-1')
        n, rule = 1292, 'method'
        spec = {'req': hp.req(method), 'resps': []}
    elif what == 'target':
        v = tgt = c12.target(rng)
        n, rule = 1045, c12.rule_for(method)
        spec = {'req': hp.req(method, v.decode('latin-1')), 'resps': []}
    else:
        v = gen.mutate(rng.choice(gen.NAMES), rng)
        hs = [(v.decode('latin-1'), b'x')]
        n, rule = 1293, 'field-name'
        # Non-ASCII letters change under case folding: not our subject here.
        if any(c > 127 for c in v):
            return
        spec = {'req': hp.req('GET', '/', hs), 'resps': []}
    msg, = shown(spec)
    for x in msg['notices']:
        if x['id'] == n:
            rec.count('notice %d' % n)
            compare(rec, '%d %s' % (n, rule), rule, v, x['paras'], spec)


def nested(i, rng, rec):
    kind = rng.choice(['delta', 'node', 'rel', 'hreflang', 'type', 'anchor',
                       'host', 'scheme', 'alt', 'names', 'scope', 'ext'])
    rule, head = {
        'delta': ('delta-seconds', ('Cache-Control', b'Max-Age=')),
        'names': ('field-name-list', ('Cache-Control', b'private=')),
        'node': ('node', ('Forwarded', b'for=')),
        'host': ('Host', ('Forwarded', b'host=')),
        'scheme': ('scheme', ('Forwarded', b'proto=')),
        'rel': ('relation-types', ('Link', b'</x>; rel=')),
        'hreflang': ('Language-Tag', ('Link', b'</x>; rel=next; hreflang=')),
        'type': ('link-type', ('Link', b'</x>; rel=next; type=')),
        'anchor': ('URI-reference', ('Link', b'</x>; rel=next; anchor=')),
        'ext': ('ext-value', ('Link', b'</x>; rel=next; title*=')),
        'alt': ('alt-authority', ('Alt-Svc', b'h2=')),
        'scope': ('scope', ('WWW-Authenticate', b'Bearer scope=')),
    }[kind]
    v = c12.arg(rng, rule, c12.NICE.get(rule, ()))[:100]
    if expected(rule, v) is None or b'\r' in v or b'\n' in v:
        return
    name, start_ = head
    spec = {'req': None, 'resps': [hp.resp(401, [(name, start_ +
                                                  c12.quote(rng, v))], b'')]}
    if not G.matches(gen.HEADERS[name][0], spec['resps'][0]['headers'][0][1]):
        return
    msg, = shown(spec)
    n = {'alt': 1257, 'scope': 1266}.get(kind, 1158)
    for x in msg['notices']:
        if x['id'] == n:
            rec.count('notice %d' % n)
            compare(rec, '%d %s' % (n, kind), rule, v, x['paras'], spec)


# -- accepted values

class Skip(Exception):
    pass


def leaves(v):
    if v is None or isinstance(v, bool):
        return []
    if isinstance(v, bytes):
        v = v.decode('latin-1')
    if isinstance(v, str):
        return [str(v).lower()]
    if isinstance(v, datetime.datetime):
        return [v]
    if isinstance(v, (int, float)):
        return [v + 0]
    if isinstance(v, (tuple, list)):
        return [y for x in v for y in leaves(x)]
    if isinstance(v, values.Bad):
        return []
    if hasattr(v, 'sequence'):
        return leaves(v.sequence)
    if type(v).__name__ == 'Unavailable':
        return []
    raise Skip(type(v).__name__)


LOOSE = {'Accept', 'Via', 'Server', 'User-Agent', 'Warning', 'Prefer', 'Alt-Svc',
         'Content-Disposition', 'Forwarded', 'Content-Range', 'Link'}


def wanted(name, value):
    if name in ('Accept', 'Accept-Charset', 'Accept-Encoding',
                'Accept-Language'):
        value = [(a, b) for a, b, _ in value]
    if name == 'If-Range':
        value = value[1]
    return leaves(value)


def subsequence(a, b):
    it = iter(b)
    return all(x in it for x in a)


def atoms(xs):
    """Text cut at punctuation, for a comparison that ignores structure."""
    r = []
    for x in xs:
        if isinstance(x, datetime.datetime):
            r.append(x)
        else:
            x = '%d' % x if isinstance(x, int) else str(x)
            r += [y.lstrip('0') if y.isdigit() else y
                  for y in re.findall(r'[a-z0-9]+', x.replace("'", ' '))]
    return r


def accepted(i, rng, rec):
    for _ in range(12):
        name = rng.choice(NAMES)
        v = c12.some_value(rng, name)[:200]
        try:
            p = values.parse(name, v)
        except values.Unsure:
            continue
        if p is None or (name, v) == ('HTTPolice-Silence', b'') or \
                p.value == ['ambiguous']:
            continue
        spec = {'req': hp.req('GET', '/', [(name, v)]), 'resps': []}
        e = hp.check(spec)
        try:
            view = e.request.headers[e.request.header_entries[0].name]
            got = leaves(view.value)
        except Skip as s:
            rec.count('skipped %s' % s)
            continue
        want = wanted(name, p.value)
        rec.count('accepted')
        if v:
            rec.nontrivial(('accepted', name, v))
        if name in LOOSE:
            if name in ('Alt-Svc', 'Via', 'Content-Disposition', 'Link') and \
                    b'%' in v:
                continue
            good = subsequence(atoms(want), atoms(got))
        else:
            # URIs are case-sensitive, but that is for other checks to tell
            good = got == want
        if not good:
            rec.fail('value ' + name, '%s: %r is taken to be %r, expected %r' % (
                name, v, got, want), spec)


def case(shard, i, rng, rec):
    {'header': header, 'start': start, 'nested': nested,
     'accepted': accepted}[shard](i, rng, rec)
