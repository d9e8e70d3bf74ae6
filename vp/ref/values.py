"""Header values, parsed independently of httpolice.

``parse(name, raw)`` returns ``None`` if the value does not match the grammar
of the header, else ``Parsed(value, must, may)``: a plain Python value and the
notices about the form of the value alone (``may`` where the grammar itself is
ambiguous and either reading is right).

The grammar (vp/ref/http.abnf) decides what is well-formed; the code below only
has to take well-formed values apart, which needs nothing but splitting at
delimiters outside of quotes, comments and angle brackets.
"""

import collections
import datetime
import json
import os
import re

from vp.ref import abnf

HERE = os.path.dirname(__file__)
GRAMMAR = abnf.Grammar(open(os.path.join(HERE, 'http.abnf')).read())
REG = json.load(open(os.path.join(HERE, 'registry.json')))
HEADERS = {k.lower(): dict(v, name=k) for k, v in REG['header'].items()}

Parsed = collections.namedtuple('Parsed', ('value', 'must', 'may', 'notes'))
Parsed.__new__.__defaults__ = ((),)

DAYS = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday',
        'Sunday']


class Unsure(Exception):
    """There is more than one right reading."""


class Bad:
    """Present, but without a usable value."""

    def __init__(self, text=None):
        self.text = text

    def __repr__(self):
        return 'Bad(%r)' % self.text


def okay(x):
    return x is not None and not isinstance(x, Bad)


def header_info(name):
    return HEADERS.get(name.lower(), {})


TOKEN = re.compile(r"[!#$%&'*+\-.^_`|~0-9A-Za-z]+")
WS = ' \t'


def split(s, sep, angle=False, parens=False):
    """Split at `sep` outside quoted strings, <...> and (comments)."""
    out, cur, i, n = [], [], 0, len(s)
    depth = 0
    inq = ina = False
    while i < n:
        c = s[i]
        if (inq or depth) and c == '\\' and i + 1 < n:
            cur.append(s[i:i + 2])
            i += 2
            continue
        if inq:
            if c == '"':
                inq = False
        elif depth:
            depth += {'(': 1, ')': -1}.get(c, 0)
        elif ina:
            if c == '>':
                ina = False
        elif c == '"':
            inq = True
        elif parens and c == '(':
            depth = 1
        elif angle and c == '<':
            ina = True
        elif c == sep:
            out.append(''.join(cur))
            cur = []
            i += 1
            continue
        cur.append(c)
        i += 1
    out.append(''.join(cur))
    return out


class P:
    """One header value being taken apart."""

    def __init__(self):
        self.must = set()
        self.may = set()
        self.strings = []       # texts of quoted strings, for 1299 / 1300
        self.loose = []         # other texts that may count as quoted
        self.notes = []         # (notice, what its text must mention)

    def note(self, notice, **fills):
        self.must.add(notice)
        self.notes.append((notice, fills))

    def elements(self, s, **kw):
        xs = [x.strip(WS) for x in split(s, ',', **kw)]
        r = [x for x in xs if x]
        if len(r) != len(xs) and len(xs) > 1:
            self.must.add(1151)
        return r

    def word(self, s, note=True):
        """token / quoted-string -> (text, is quoted)"""
        if not s.startswith('"'):
            return s, False
        out, i = [], 1
        while i < len(s) - 1:
            if s[i] == '\\':
                i += 1
                if s[i] not in '"\\':
                    self.note(1017, char=s[i])
            out.append(s[i])
            i += 1
        r = ''.join(out)
        if note:
            self.strings.append(r)
        return r, True

    def params(self, parts, bws=False):
        """['a=b', ...] -> [(lower-case name, text or None, quoted)]"""
        r = []
        for p in parts:
            name, eq, val = p.partition('=')
            if bws and eq and (name != name.rstrip(WS) or
                               val != val.lstrip(WS)):
                self.must.add(1015)
            name = name.strip(WS)
            val = val.strip(WS)
            if not eq:
                r.append((name.lower(), None, False))
            else:
                r.append((name.lower(),) + self.word(val))
        return r

    def comment(self, s):
        body, i, depth = s[1:-1], 0, 0
        while i < len(body):
            if body[i] == '\\':
                i += 1
                if body[i] not in '()\\':
                    self.note(1017, char=body[i])
            i += 1
        self.loose.append(body)

    def rws(self, s):
        if s != ' ':
            self.note(1014, num=len(s))

    def date(self, s):
        months = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep',
                  'Oct', 'Nov', 'Dec']
        days = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']
        dow = days.index(s[:3])
        m = re.match(r'..., (\d\d) (...) (\d{4}) (\d\d):(\d\d):(\d\d) GMT$', s)
        if m:
            d, mon, y = int(m[1]), m[2], int(m[3])
            t = [int(x) for x in m.groups()[3:]]
        else:
            self.must.add(1107)
            m = re.match(r'\w+, (\d\d)-(...)-(\d\d) (\d\d):(\d\d):(\d\d) GMT$',
                         s)
            if m:
                d, mon, y = int(m[1]), m[2], two_digit_year(int(m[3]))
                t = [int(x) for x in m.groups()[3:]]
            else:
                m = re.match(r'... (...) ([\d ]\d) (\d\d):(\d\d):(\d\d) '
                             r'(\d{4})$', s)
                mon, d, y = m[1], int(m[2]), int(m[6])
                t = [int(x) for x in m.groups()[2:5]]
        good = True
        leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
        mdays = [31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30,
                 31]
        mi = months.index(mon)
        if not (y >= 1 and 1 <= d <= mdays[mi]):
            self.note(1222, date='%d %s %d' % (d, mon, y))
            good = False
        if not (t[0] < 24 and t[1] < 60 and t[2] < 60):
            if t == [23, 59, 60]:       # a leap second
                self.may.add(1223)
                self.notes.append((1223, {'time': '23:59:60'}))
            else:
                self.note(1223, time='%02d:%02d:%02d' % tuple(t))
            good = False
        if not good:
            return Bad()
        # day number by counting, Zeller-style
        y1 = y - 1
        n = y1 * 365 + y1 // 4 - y1 // 100 + y1 // 400 + sum(mdays[:mi]) + d - 1
        if n % 7 != dow:
            self.note(1108, date=re.compile('0*%d-%02d-%02d' % (y, mi + 1, d)),
                      claimed=DAYS[dow], actual=DAYS[n % 7])
        return datetime.datetime(y, mi + 1, d, *t)

    def etag(self, s):
        weak = s.startswith('W/')
        opaque = s[2:] if weak else s
        if '\\' in opaque:
            self.must.add(1119)
        return weak, opaque

    def media_type(self, s):
        if s.lower() in ('application/text', 'plain/text', 'text/json'):
            self.note(1282, bad=s, good='application/json' if s.lower() ==
                      'text/json' else 'text/plain')
        return s.lower()

    def ext_value(self, s):
        charset, lang, val = s.split("'", 2)
        if charset.lower() != 'utf-8':
            self.note(1253, charset=charset)
        else:
            raw = re.sub('%([0-9A-Fa-f]{2})',
                         lambda m: chr(int(m[1], 16)), val).encode('latin-1')
            try:
                raw.decode('utf-8')
            except UnicodeDecodeError:
                self.note(1254, charset=charset)

    def sub(self, other):
        self.must |= other.must
        self.may |= other.may
        self.strings += other.strings
        self.loose += other.loose
        self.notes += other.notes

    def argument(self, kind, name, value):
        """Judge an argument; `value` is a text or None.  Returns its value."""
        info = {k.lower(): v for k, v in REG[kind].items()}.get(name) \
            if kind != 'alt_svc_param' else REG[kind].get(name)
        info = info or {}
        need = info.get('argument')
        if value is None:
            if need == 'required':
                self.note(1156, name=name)
                return Bad('')
            return None
        if need == 'no':
            self.note(1157, name=name)
            return Bad(value)
        rule = info.get('rule')
        if rule:
            if not matches(rule, value):
                self.note(1158, name=name, value=value)
                return Bad(value)
            if rule == 'delta-seconds':
                return number(value)
            if rule == 'field-name-list':
                return [x.lower() for x in self.elements(value)]
            if rule in ('pref-return', 'pref-handling'):
                return value.lower()
            if rule == 'alt-persist':
                return True
        return value


def two_digit_year(yy):
    # RFC 7231 section 7.1.1.1: a date that appears to be more than 50 years
    # in the future is in the past century with the same last two digits.
    now = datetime.datetime.utcnow()
    y = now.year // 100 * 100 + yy
    if y == now.year + 50:
        raise Unsure('more than 50 years from now?')
    return y - 100 if y > now.year + 50 else y


def matches(rule, text):
    try:
        raw = text.encode('latin-1')
    except UnicodeEncodeError:
        return False
    return GRAMMAR.matches(rule, raw)


def number(s):
    s = s.lstrip('0')
    return int(s or '0') if len(s) < 1000 else 10 ** 1000


def versioned(s):
    a, slash, b = s.partition('/')
    return (a, b if slash else None)


def challenges(p, s):
    """[(scheme, token68 or [(name, text, quoted)])]"""
    out = []
    xs = split(s, ',')
    if len(xs) > 1 and any(not x.strip(WS) for x in xs):
        p.must.add(1151)
    for k, x in enumerate(xs):
        x = x.strip(WS)
        if not x:
            continue
        m = re.match(r"([^\s=,\"]+)([ \t]*=[ \t]*)(.+)$", x, re.S)
        if m and TOKEN.fullmatch(m[1]) and out and out[-1][1] is not None and \
                not re.fullmatch('=+', m[3]):
            # one more parameter of the last challenge
            if out[-1][2] == k - 1 and not out[-1][1] and out[-1][3]:
                p.must.add(1151)        # "Foo , a=b"
            out[-1][1].extend(p.params([x], bws=True))
            continue
        scheme, sp, rest = x.partition(' ')
        rest = rest.strip(' ')
        if not rest:
            out.append([scheme.lower(), [], k, True])
        elif re.fullmatch(r'[A-Za-z0-9\-._~+/]+=*', rest):
            out.append([scheme.lower(), rest, k, False])
        else:
            out.append([scheme.lower(), p.params([rest.strip(WS)], bws=True), k,
                        False])
    r = []
    for scheme, what, _, _ in out:
        if not isinstance(what, str):
            for name, text, quoted in what:
                if name == 'realm' and not quoted:
                    p.must.add(1196)
        r.append((scheme, what))
    return r


def link(p, s):
    """One link-value: (target, [(name, value)])"""
    end = s.index('>')
    target = s[1:end]
    p.loose.append(target)
    parts = split(s[end + 1:], ';')[1:]
    params = []
    seen = set()
    for k, part in enumerate(parts):
        part = part.lstrip(WS)
        name, eq, val = part.partition('=')
        if eq:
            val = val.rstrip(WS)
            if name != name.rstrip(WS) or val != val.lstrip(WS):
                p.must.add(1015)
            name = name.rstrip(WS).lower()
            # the text of a parameter counts only if it is kept as text
            text, quoted = p.word(val.lstrip(WS), note=False)
        else:
            if part != part.rstrip(WS):
                p.may.add(1015)     # is it OWS or BWS?
            name, text, quoted = part.rstrip(WS).lower(), None, None
        if name in ('rel', 'media', 'title', 'title*', 'type'):
            if name in seen:
                p.note(1225, name=name)
                continue
            seen.add(name)
        if name == 'title' and quoted is False:
            p.must.add(1307)
        if name == 'hreflang' and quoted:
            p.must.add(1308)
        rule = {'anchor': 'URI-reference', 'rel': 'relation-types',
                'rev': 'relation-types', 'hreflang': 'Language-Tag',
                'type': 'link-type', 'title*': 'ext-value'}.get(name)
        value = text
        if rule:
            text = text or ''
            if not matches(rule, text):
                p.note(1158, name=name, value=text)
                value = Bad(text)
            elif name in ('rel', 'rev'):
                value = [x.lower() if GRAMMAR.matches('reg-rel-type',
                                                      x.encode('latin-1'))
                         else x for x in text.split(' ') if x]
                p.loose.append(text)
            elif name == 'title*':
                p.ext_value(text)
            else:
                if name == 'type':
                    p.media_type(text)
                if quoted:
                    p.strings.append(text)
                else:
                    p.loose.append(text)
        elif quoted:
            p.strings.append(text)
        if name == 'rev':
            p.must.add(1226)
        params.append((name, value))
    if 'rel' not in seen:
        p.must.add(1309)
    return target, params


def first(pairs, name, default=None):
    for k, v in pairs:
        if k == name:
            return v
    return default


def products(p, s):
    out = []
    parts = split_ws(s)
    for k, (sep, x) in enumerate(parts):
        if k:
            p.rws(sep)
        if x.startswith('('):
            p.comment(x)
        else:
            out.append(versioned(x))
    return out


def split_ws(s):
    """[(white space before, item)] outside comments."""
    out, i, n = [], 0, len(s)
    while i < n:
        j = i
        while j < n and s[j] in WS:
            j += 1
        k = j
        depth = 0
        while k < n:
            c = s[k]
            if depth and c == '\\':
                k += 2
                continue
            if c == '(':
                depth += 1
            elif c == ')':
                depth -= 1
                if depth == 0:
                    k += 1
                    break
            elif c in WS and not depth:
                break
            k += 1
        out.append((s[i:j], s[j:k]))
        i = k
    return out


def weighted(p, x):
    """item [ OWS ; OWS q=... ] -> (item, q or None)"""
    parts = [y.strip(WS) for y in x.split(';')]
    return parts[0], (float(parts[1][2:]) if len(parts) > 1 else None)


def alpn(p, s):
    raw = re.sub('%([0-9A-Fa-f]{2})', lambda m: chr(int(m[1], 16)), s)
    good = ''.join(c if TOKEN.fullmatch(c) and c != '%'
                   else '%%%02X' % ord(c) for c in raw)
    if good != s:
        p.note(1256, actual=s, correct=good)
    return raw


COMMENT = r'\((?:[^()\\]|\\.|\((?:[^()\\]|\\.)*\))*\)'
VIA_PART = (r"[!#-'*+.^_`|~\w/-]+[ \t]+[][\w.:-]+([ \t]+%s)?" % COMMENT)
PLAIN_VIA = re.compile(r'[ \t,]*(%s)([ \t]*,[ \t,]*(%s))*[ \t,]*'
                       % (VIA_PART, VIA_PART), re.S)


def take_apart(name, s, p):
    n = name.lower()
    low = [x.lower() for x in p.elements(s)] if n in (
        'trailer', 'connection', 'content-encoding', 'content-language',
        'vary', 'accept-ranges', 'access-control-request-headers',
        'access-control-expose-headers', 'access-control-allow-headers') \
        and (n, s) != ('vary', '*') else None
    if n == 'accept-ranges' and s.lower() == 'none':
        return 'none'
    if n == 'vary' and s == '*':
        return '*'
    if low is not None:
        return low
    if n in ('allow', 'access-control-allow-methods'):
        return p.elements(s)
    if n in ('date', 'last-modified', 'if-modified-since',
             'if-unmodified-since', 'expires'):
        return p.date(s)
    if n == 'retry-after':
        return number(s) if s.isdigit() else p.date(s)
    if n in ('age', 'max-forwards', 'content-length', 'access-control-max-age'):
        return number(s)
    if n == 'etag':
        return p.etag(s)
    if n == 'if-range':
        return ('tag', p.etag(s)) if s.endswith('"') else ('date', p.date(s))
    if n in ('if-match', 'if-none-match'):
        if s == '*':
            return '*'
        # entity tags have no escapes, so the usual splitting won't do
        rest = re.sub('"[^"]*"', 'x', s)
        if ',' in rest and any(not x.strip(WS) for x in rest.split(',')):
            p.must.add(1151)
        return [p.etag(x) for x in re.findall('(?:W/)?"[^"]*"', s)]
    if n in ('user-agent', 'server'):
        return products(p, s)
    if n == 'via':
        out = []
        if not PLAIN_VIA.fullmatch(s):
            p.may |= {1014, 1017, 1151, 1299, 1300}
            return ['ambiguous']
        for x in p.elements(s, parens=True):
            parts = split_ws(x)
            for sep, y in parts[1:]:
                p.rws(sep)
            if len(parts) > 2:
                p.comment(parts[2][1])
            proto = parts[0][1]
            out.append((proto if '/' in proto else 'HTTP/' + proto,
                        parts[1][1]))
        return out
    if n == 'upgrade':
        return [versioned(x) for x in p.elements(s)]
    if n == 'expect':
        return s.lower()
    if n in ('transfer-encoding', 'te'):
        out = []
        for x in p.elements(s):
            parts = [y.strip(WS) for y in split(x, ';')]
            qv = None
            # the weight is written "q=..." without white space; "q" can not
            # be the name of a parameter
            if n == 'te' and len(parts) > 1 and \
                    re.match('[qQ]=', parts[-1]):
                qv = float(parts.pop()[2:])
            out.append((parts[0].lower(), p.params(parts[1:], bws=True), qv))
        return out
    if n in ('content-type', 'accept-patch', 'accept-post'):
        def mt(x):
            parts = [y.strip(WS) for y in split(x, ';')]
            return (p.media_type(parts[0]),
                    [(k, v) for k, v, _ in p.params(parts[1:])])
        if n == 'content-type':
            return mt(s)
        return [mt(x) for x in p.elements(s)]
    if n == 'accept':
        out = []
        for x in p.elements(s):
            parts = [y.strip(WS) for y in split(x, ';')]
            p.media_type(parts[0])
            ps = p.params(parts[1:])
            qv = next((float(v) for k, v, _ in ps if k == 'q'), None)
            out.append((parts[0].lower(), qv, parts[0]))
        return out
    if n in ('accept-charset', 'accept-encoding', 'accept-language'):
        return [(a.lower(), b, a) for a, b in
                (weighted(p, x) for x in p.elements(s))]
    if n == 'range':
        unit, _, rest = s.partition('=')
        if unit.lower() != 'bytes':
            return (unit.lower(), rest)
        ranges = []
        for x in p.elements(rest):
            a, _, b = x.partition('-')
            a = number(a) if a else None
            b = number(b) if b else None
            if a is not None and b is not None and a > b:
                p.must.add(1133)
            ranges.append((a, b))
        return ('bytes', ranges)
    if n == 'content-range':
        unit, _, rest = s.partition(' ')
        if unit.lower() != 'bytes':
            return (unit.lower(), rest)
        rng, _, total = rest.partition('/')
        if rng != '*':
            a, b = (number(x) for x in rng.split('-'))
            if b < a or (total != '*' and number(total) <= b):
                p.must.add(1148)
        return ('bytes', rest)
    if n == 'cache-control':
        out = []
        for x in p.elements(s):
            (d, text, quoted), = p.params([x])
            info = REG['cache_directive'].get(d, {})
            if text is not None:
                if info.get('form') == 'quoted_string' and not quoted:
                    p.note(1154, directive=d)
                if info.get('form') == 'token' and quoted:
                    p.note(1155, directive=d)
            out.append((d, p.argument('cache_directive', d, text)))
        return out
    if n == 'pragma':
        return [(k, v) for k, v, _ in p.params(p.elements(s))]
    if n == 'warning':
        out = []
        # names of agents can contain commas
        left = s.lstrip(WS + ',')
        if left != s:
            p.must.add(1151)
        while left:
            m = re.match(r'(\d{3}) ([^ ]*) ("(?:\\.|[^"\\])*")(?: "([^"]*)")?',
                         left, re.S)
            p.word(m[3])
            p.loose.append(m[2])
            date = p.date(m[4]) if m[4] is not None else None
            out.append((int(m[1]), date))
            sep = re.match('[ \t,]*', left[m.end():])[0]
            left = left[m.end() + len(sep):]
            if sep.count(',') > (1 if left else 0):
                p.must.add(1151)
        return out
    if n in ('www-authenticate', 'proxy-authenticate'):
        return challenges(p, s)
    if n in ('authorization', 'proxy-authorization'):
        return challenges(p, s)[0]
    if n == 'strict-transport-security':
        out = []
        for x in split(s, ';'):
            x = x.strip(WS)
            if not x:
                continue
            q0 = P()
            (d, text, quoted), = q0.params([x])
            v = q0.argument('hsts_directive', d, text)
            if isinstance(v, Bad):
                q0.strings = []
            p.sub(q0)
            out.append((d, v))
        return out
    if n == 'content-disposition':
        parts = split(s, ';')
        out = []
        for x in parts[1:]:
            k, _, v = x.partition('=')
            k, v = k.strip(WS).lower(), v.strip(WS)
            if k == 'filename*':
                p.ext_value(v)
                out.append((k, v))
            else:
                out.append((k, p.word(v)[0]))
        return (parts[0].strip(WS).lower(), out)
    if n == 'forwarded':
        elems = []
        xs = [x.strip(WS) for x in split(s, ',')]
        empties = len(xs) > 1 and any(not x for x in xs)
        if empties:
            p.may |= {1151}
        for x in xs:
            pairs = []
            q0 = P()
            for y in split(x, ';'):
                if y:
                    q1 = P()
                    (k, v, _), = q1.params([y])
                    v = q1.argument('forwarded_param', k, v)
                    if isinstance(v, Bad):
                        q1.strings = []
                    pairs.append((k, v))
                    q0.sub(q1)
            p.sub(q0)
            names = [k for k, _ in pairs]
            if len(set(names)) < len(names):
                for k in set(names):
                    if names.count(k) > 1:
                        p.note(1296, param=k)
            if x:
                elems.append(pairs)
        names = [e[0][0] for e in elems if len(e) == 1]
        if len(elems) > 1 and len(names) == len(elems) and \
                len(set(names)) == len(names):
            (p.may if empties else p.must).add(1297)
            p.notes.append((1297, {'n_elements': len(elems)}))
        return elems
    if n in ('prefer', 'preference-applied'):
        out = []
        for x in p.elements(s):
            parts = [y.strip(WS) for y in split(x, ';')]
            q0 = P()
            (k, v, _), = q0.params([parts[0]])
            v = q0.argument('preference', k, v or None)
            if isinstance(v, Bad):
                q0.strings = []
            p.sub(q0)
            p.params([y for y in parts[1:] if y])
            out.append((k, v))
        return out
    if n == 'alt-svc':
        if s == 'clear':
            return 'clear'
        out = []
        for x in p.elements(s):
            parts = [y.strip(WS) for y in split(x, ';')]
            proto, _, auth = parts[0].partition('=')
            alpn(p, proto)
            text, _ = p.word(auth.strip(WS))
            if not matches('alt-authority', text):
                p.note(1257, authority=text)
            for y in parts[1:]:
                k, _, v = y.partition('=')      # names are case-sensitive
                p.argument('alt_svc_param', k, p.word(v)[0])
            out.append(proto)
        return out
    if n == 'link':
        return [link(p, x) for x in p.elements(s, angle=True)]
    if n == 'httpolice-silence':
        out = []
        for x in p.elements(s):
            parts = split_ws(x)
            for sep, _ in parts[1:]:
                p.rws(sep)
            out.append((number(parts[0][1]), len(parts) > 1))
        return out
    return s


MEMO = {}


def parse(name, raw):
    """Parsed or None; headers without a known syntax give the raw bytes."""
    info = header_info(name)
    rule = info.get('rule')
    if rule is None:
        return Parsed(raw, frozenset(), frozenset())
    key = (name.lower(), raw)
    if key in MEMO:
        return MEMO[key]
    if len(MEMO) > 20000:
        MEMO.clear()
    if not GRAMMAR.matches(rule, raw):
        r = None
    else:
        p = P()
        value = take_apart(name, raw.decode('latin-1'), p)
        must, may = p.must, p.may
        for flag, char, notice in [('quoted_comma_bad', ',', 1299),
                                   ('quoted_semicolon_bad', ';', 1300)]:
            if info.get(flag):
                if any(char in x for x in p.strings):
                    must.add(notice)
                if any(char in x for x in p.loose):
                    may.add(notice)
        r = Parsed(value, frozenset(must), frozenset(may - must),
                   tuple(p.notes))
    MEMO[key] = r
    return r
