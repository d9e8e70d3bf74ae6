"""A reference for the notices about single messages and exchanges.

``judge(spec)`` says for every message which notices must be reported on it and
which may be (where the documented condition leaves room).  It is written from
the texts of the notices and the RFCs over values parsed by vp/ref/values.py.
Notices about bodies (1036-1040, 1139, 1140, 1275, 1281) are left to C11.
"""

import datetime
import re
from urllib.parse import unquote_plus

from vp.ref import values
from vp.ref.values import GRAMMAR, REG, Bad, first, header_info, okay

BODY_IDS = {1036, 1037, 1038, 1039, 1040, 1139, 1140, 1275, 1281}

# Which property decides on which notices
AREAS = {
    'C15': [1014, 1015, 1017, 1018, 1019, 1020, 1021, 1022, 1023, 1024,
            1025, 1026, 1028, 1029, 1030, 1031, 1032, 1033, 1034, 1041, 1045,
            1046, 1047, 1053, 1054, 1061, 1063, 1064, 1066, 1067, 1151, 1190,
            1189, 1191, 1192, 1197, 1198, 1199, 1236, 1237, 1239, 1240, 1244,
            1245, 1277, 1292, 1293, 1294, 1295, 1299, 1300, 1304, 1305, 1306,
            1013],
    'C16': [1048, 1049, 1050, 1051, 1052, 1055, 1056, 1057, 1058, 1059, 1060,
            1062, 1071, 1072, 1073, 1074, 1076, 1077, 1078, 1079, 1080, 1081,
            1082, 1083, 1084, 1085, 1086, 1087, 1088, 1089, 1090, 1092, 1094,
            1095, 1096, 1097, 1098, 1099, 1100, 1101, 1102, 1103, 1104, 1105,
            1106, 1111, 1112, 1113, 1114, 1115, 1117, 1167, 1200, 1201, 1203,
            1204, 1205, 1242, 1243, 1246, 1260, 1283, 1284],
    'C17': [1118, 1119, 1120, 1121, 1122, 1123, 1124, 1125, 1127, 1128, 1129,
            1130, 1131, 1132, 1133, 1134, 1135, 1136, 1137, 1138, 1141, 1142,
            1143, 1144, 1145, 1146, 1147, 1148, 1149, 1150],
    'C18': [1107, 1108, 1109, 1110, 1152, 1153, 1154, 1155, 1156, 1157, 1159,
            1160, 1161, 1162, 1163, 1164, 1165, 1166, 1168, 1169, 1170, 1171,
            1172, 1173, 1174, 1175, 1176, 1177, 1178, 1179, 1180, 1181, 1182,
            1183, 1184, 1185, 1186, 1187, 1188, 1193, 1202, 1222, 1223, 1235,
            1238, 1241, 1301, 1302, 1303],
    'C19': [1068, 1194, 1195, 1196, 1206, 1207, 1208, 1209, 1210, 1211, 1212,
            1218, 1219, 1220, 1221, 1233, 1261, 1262, 1263, 1264, 1265, 1266,
            1267, 1268, 1269, 1270, 1271, 1272, 1273, 1274],
    'C20': [1035, 1042, 1070, 1093, 1116, 1158, 1213, 1214, 1215, 1216, 1217,
            1225, 1226, 1227, 1228, 1230, 1231, 1232, 1234, 1247, 1248, 1249,
            1250, 1251, 1252, 1253, 1254, 1256, 1257, 1258, 1276, 1280, 1282,
            1285, 1286, 1287, 1288, 1289, 1290, 1291, 1296, 1297, 1307, 1308,
            1309, 1310],
}
KNOWN = set().union(*AREAS.values()) | {1000}

REQ_PRECONDITIONS = ('if-match', 'if-none-match', 'if-modified-since',
                     'if-unmodified-since', 'if-range')


def as_bytes(v):
    return v if isinstance(v, bytes) else v.encode('latin-1', 'replace')


class OneOf(tuple):
    """Any of these is right."""


class Header:

    def __init__(self, name, entries, kind):
        self.name = name
        self.entries = entries              # Parsed or None
        self.present = bool(entries)
        self.absent = not entries
        self.kind = kind
        vals = [Bad() if e is None else e.value for e in entries]
        self.mixed = False
        if kind == 'multi':
            whole = [v for v in vals if not isinstance(v, (list, Bad))]
            if whole and len(entries) == 1:
                self.value = whole[0]
            elif whole:
                self.mixed = True
                self.value = [Bad()]
            else:
                self.value = []
                for v in vals:
                    if isinstance(v, Bad):
                        self.value.append(v)
                    else:
                        self.value.extend(v)
        else:
            self.value = vals[-1] if vals else None

    @property
    def ok(self):
        return okay(self.value)

    @property
    def items(self):
        """The usable elements of a list-valued header."""
        if not isinstance(self.value, list):
            return []
        return [x for x in self.value if okay(x)]

    def has(self, x):
        return x in self.items


class Message:

    def __init__(self, d, kind):
        self.d = d
        self.kind = kind
        self.must = set()
        self.may = set()
        self.version = d['version']
        self.lines = [(k, as_bytes(v)) for k, v in d['headers']]
        self.trailers = [(k, as_bytes(v)) for k, v in d.get('trailers') or []]
        self.body = d['body']
        self.names = []         # lower-case, in order of appearance
        for k, _ in self.lines + self.trailers:
            if k.lower() not in self.names:
                self.names.append(k.lower())
        self.cache = {}
        self.texts = []         # (notice, what its text must mention)

    def say(self, *ids):
        self.must.update(ids)

    def tell(self, n, **fills):
        """Say this, and what is to be mentioned as the culprit."""
        self.must.add(n)
        self.texts.append((n, fills))

    def shown(self, name):
        """A header name as it should be shown."""
        info = header_info(name)
        if info:
            return info['name']
        spelled = [k for k, _ in self.lines + self.trailers
                   if k.lower() == name.lower()]
        return OneOf(spelled or [name])

    def maybe(self, *ids):
        self.may.update(ids)

    def h(self, name):
        if name in self.cache:
            return self.cache[name]
        info = header_info(name)
        entries = []
        kind = info.get('kind')
        lines = [(False, v) for k, v in self.lines if k.lower() == name] + \
            [(True, v) for k, v in self.trailers if k.lower() == name]
        for in_trailer, v in lines:
            if in_trailer and info.get('bad_for_trailer'):
                self.tell(1026, entry=self.shown(name))
                continue
            p = values.parse(name, v)
            entries.append(p)
            if p is None:
                self.tell(1000, place=self.shown(name), raw=v)
            else:
                self.must |= p.must
                self.may |= p.may
                place = self.shown(name)
                noted = {n for n, _ in p.notes}
                self.texts += [
                    (n, dict(f, place=place, entry=place,
                             unsure=n not in p.must))
                    for n, f in p.notes + tuple(
                        (n, {}) for n in p.must | p.may if n not in noted)]
        r = Header(name, entries, kind)
        if kind == 'single' and len(entries) > 1 or r.mixed:
            self.tell(1013, header=self.shown(name))
        self.cache[name] = r
        return r

    def __getattr__(self, name):
        if name.startswith('h_'):
            return self.h(name[2:].replace('_', '-'))
        raise AttributeError(name)

    # Cache-Control, Prefer and the like: the first one of that name
    def directive(self, header, name):
        for k, v in self.h(header).items:
            if k == name:
                return True if v is None else v
        return None

    def cc(self, name):
        return self.directive('cache-control', name)

    def has_cc(self, name):
        """Is the directive there with an effect?  (not e.g. max-age=0)"""
        return bool(self.cc(name))

    def connection(self, opt):
        return opt in self.h_connection.items

    def warn(self, code):
        return any(c == code for c, _ in self.h_warning.items)

    @property
    def h2(self):
        return self.version == 'HTTP/2'

    @property
    def h11(self):
        return self.version == 'HTTP/1.1'

    @property
    def h1(self):
        return self.version in ('HTTP/1.0', 'HTTP/1.1')


def both(msg, tls, status=None):
    """What applies to requests and responses."""
    names = msg.names
    xs = False
    for n in names:
        shown = n
        try:
            good = GRAMMAR.matches('field-name', shown.encode('latin-1'))
        except UnicodeEncodeError:
            good = False
        if not good:
            msg.tell(1293, header=msg.shown(n))
        msg.h(n)
        info = header_info(n)
        if info.get('deprecated'):
            msg.tell(1197, header=msg.shown(n))
        if n.startswith('x-') and n not in values.HEADERS:
            xs = True
    if xs:
        msg.say(1277)
    te = [t[0] for t in msg.h_transfer_encoding.items]
    if msg.h11 and msg.h_trailer.present and 'chunked' not in te:
        msg.say(1054)
    for k, _ in msg.trailers:
        if k.lower() not in msg.h_trailer.items:
            msg.tell(1030, header=msg.shown(k))
    if msg.h_transfer_encoding.present and msg.h_content_length.present:
        msg.say(1020)
    for opt in msg.h_connection.items:
        if header_info(opt).get('bad_for_connection'):
            msg.tell(1034, header=msg.shown(opt))
    if msg.h_content_type.ok:
        mt, params = msg.h_content_type.value
        keys = [k for k, _ in params]
        if MEDIA.get(mt, {}).get('deprecated'):
            msg.say(1035)
        if len(set(keys)) < len(keys):
            for k in keys:
                if keys.count(k) > 1:
                    msg.tell(1042, param=k)
        if mt == 'application/json' and 'charset' in keys:
            msg.say(1280)
    date = msg.h_date.value
    now = datetime.datetime.utcnow()
    if okay(date):
        gap = (date - now).total_seconds()
        if gap > 12:
            msg.say(1109)
        elif gap > 8:
            msg.maybe(1109)
    for code, wdate in msg.h_warning.items:
        if not 100 <= code <= 299:
            msg.tell(1163, code='%03d' % code)
        if okay(wdate) and okay(date) and wdate != date:
            msg.tell(1164, code='%03d' % code)
    for k, v in msg.h_pragma.items:
        if (k, v) != ('no-cache', None):
            msg.tell(1160, pragma=k)
    for name, version in msg.h_upgrade.items:
        if name == 'h2':
            msg.say(1228)
        if name == 'h2c' and tls:
            msg.say(1233)
    if status == 103:
        return
    if msg.h_upgrade.present and not msg.connection('upgrade'):
        msg.say(1050)
    transformed = False
    if status == 203:
        msg.say(1190)
        transformed = True
    elif msg.warn(214):
        msg.say(1189)
        transformed = True
    msg.transformed = transformed
    if transformed:
        if not msg.warn(214):
            msg.say(1191)
        if msg.has_cc('no-transform'):
            msg.say(1192)
    if msg.h2:
        for n in ('connection', 'transfer-encoding', 'keep-alive'):
            if n in names:
                msg.tell(1244, header=msg.shown(n))
        if 'upgrade' in names:
            msg.say(1245)


MEDIA = {k.lower(): v for k, v in REG['media_type'].items()}


def target_form(req):
    t = req.d['target']
    rules = {'CONNECT': ['authority-form'],
             'OPTIONS': ['origin-form', 'asterisk-form', 'absolute-form']}
    for rule in rules.get(req.d['method'], ['origin-form', 'absolute-form']):
        if values.matches(rule, t):
            return rule.split('-')[0]
    return None


def effective_uri(req):
    form = req.form
    t = req.d['target']
    if form == 'absolute':
        return t
    if not req.d['scheme'] or form is None:
        return None
    if form == 'authority':
        return req.d['scheme'] + '://' + t
    if not req.h_host.ok:
        return None
    host = req.h_host.value
    return req.d['scheme'] + '://' + host + (t if form == 'origin' else '')


def form_keys(s):
    """Names in a query string that have a non-empty value."""
    r = set()
    for pair in s.split('&'):
        k, eq, v = pair.partition('=')
        if eq and v:
            r.add(unquote_plus(k))
    return r


FORM_GOOD = re.compile(rb'[%&*+\-._0-9:;<=>?A-Za-z]*')


def posted_token(req):
    """Does the body carry an access token?  None if we can't say."""
    ct = req.h_content_type
    if not (ct.ok and ct.value[0] == 'application/x-www-form-urlencoded'):
        return False
    if req.body is None:
        return None
    if not req.body:
        return False
    if req.h_content_encoding.present:
        return None
    if not FORM_GOOD.fullmatch(req.body):
        return False
    return 'access_token' in form_keys(req.body.decode('ascii'))


def subsumption(elems, slash):
    """Wildcards that have the same weight as something they cover."""
    r = []

    def covers(a, b):
        if a == b:
            return False
        if slash:
            if a == '*/*':
                return '/' in b
            return a.endswith('/*') and b.startswith(a[:-1])
        return a == '*'
    for a, qa, _ in elems:
        for b, qb, _ in elems:
            if (1.0 if qa is None else qa) == (1.0 if qb is None else qb) and \
                    covers(a, b):
                r.append((a, b))
    return r


def odd_wildcards(elems, slash):
    """Asterisks at the end that are not wildcards by the grammar."""
    for a, _, _ in elems:
        if slash:
            t, _, sub = a.partition('/')
            if a.endswith('*') and a != '*/*' and ('*' in t or sub != '*'):
                return True
        elif a != '*' and set(a) == {'*'}:
            return True
    return False


def judge_basic(msg, cred, name):
    for n in (1210, 1211):
        msg.texts.append((n, {'header': name}))
    if not isinstance(cred, str):
        msg.tell(1209, header=name)
        return
    import base64
    body = cred.rstrip('=')
    pad = len(cred) - len(body)
    if re.search(r'[-_.~]', body):
        msg.maybe(1210, 1211, 1212)         # not in the alphabet
        return
    if len(cred) % 4 == 0 and pad <= 2:
        raw = base64.b64decode(body + '=' * pad)
    elif (len(body) + pad) % 4 != 0 and pad <= 2 and \
            len(body) + pad < (len(body) + 3) // 4 * 4 or len(body) % 4 == 1:
        msg.say(1210)
        return
    else:
        msg.maybe(1210)
        raw = base64.b64decode(body + '=' * (-len(body) % 4))
        if b':' not in raw:
            msg.maybe(1211)
        if any(c < 32 or c == 127 for c in raw):
            msg.maybe(1212)
        control_chars(msg, raw, name)
        return
    if b':' not in raw:
        msg.say(1211)
    if any(c < 32 or c == 127 for c in raw):
        msg.say(1212)
    control_chars(msg, raw, name)


def control_chars(msg, raw, name):
    for c in raw:
        if c < 32 or c == 127:
            msg.texts.append((1212, {'header': name, 'char': hex(c)}))


def request(req):
    d = req.d
    method = d['method']
    tls = {'http': False, 'https': True}.get(d['scheme'])
    info = REG['method'].get(method, {})
    req.tls = tls
    req.form = target_form(req)
    both(req, tls)
    if not values.matches('method', method):
        req.say(1292)
    if req.form is None:
        req.say(1045)
    if method != method.upper() and method.upper() in REG['method']:
        req.tell(1295, uppercase=method.upper())
    body = req.body
    framed = req.h_content_length.present or req.h_transfer_encoding.present
    # None: can't say (no such thing as a missing body in HTTP/2)
    req.has_body = True if body else (framed if req.h1 else None)
    if body and req.h_content_type.absent:
        req.say(1041)
        if method == 'OPTIONS':
            req.say(1062)
    if req.h1 and info.get('defines_body') and not framed:
        req.say(1021)
    if info.get('defines_body') is False and body == b'' and \
            req.h_content_length.present:
        req.say(1022)
    te = req.h_te.value if isinstance(req.h_te.value, list) else []
    tnames = [t[0] if okay(t) else None for t in te]
    if 'chunked' in tnames:
        req.say(1028)
    if req.h2 and te and tnames != ['trailers']:
        req.tell(1244, header='TE')
    if req.h11 and te and not req.connection('te'):
        req.say(1029)
    if req.h11 and req.h_host.absent:
        req.say(1031)
    if req.h_host.present and req.lines[0][0].lower() != 'host':
        req.say(1032)
    for n in req.names:
        hi = header_info(n)
        if hi.get('for_request') is False:
            req.tell(1063, header=req.shown(n))
        elif hi.get('representation_metadata') and req.has_body is False:
            req.tell(1053, header=req.shown(n))
    if body:
        req.must |= {'GET': {1056}, 'HEAD': {1057}, 'DELETE': {1059},
                     'CONNECT': {1061}}.get(method, set())
    if req.h_expect.value == '100-continue' and req.has_body is False:
        req.say(1066)
    if req.h_max_forwards.present and method not in ('OPTIONS', 'TRACE'):
        req.say(1067)
    if req.h_referer.ok and tls is False and \
            req.h_referer.value.lower().startswith('https:'):
        req.say(1068)
    ua = req.h_user_agent
    if ua.absent:
        req.say(1070)
    elif ua.ok and all(p in REG['product'] for p, _ in ua.value):
        req.tell(1093, library=OneOf(
            [p if v is None else '%s/%s' % (p, v) for p, v in ua.value]))
    for c, q, _ in req.h_accept_encoding.items:
        if c in ('x-gzip', 'x-compress') and q is not None:
            req.tell(1116, coding=c)
    if any(weak for weak, _ in req.h_if_match.items):
        req.say(1120)
    if method == 'HEAD' and any(header_info(n).get('precondition')
                                for n in req.names):
        req.say(1131)
    if method in ('CONNECT', 'OPTIONS', 'TRACE'):
        for n in req.names:
            if n in REQ_PRECONDITIONS:
                req.tell(1130, header=req.shown(n))
    elif method not in ('GET', 'HEAD') and req.h_if_modified_since.present:
        req.say(1122)
    if req.h_range.present and method != 'GET':
        req.say(1132)
    if req.h_if_range.present and req.h_range.absent:
        req.say(1134)
    ifr = req.h_if_range.value
    if okay(ifr) and ifr[0] == 'tag' and ifr[1][0]:
        req.say(1135)
    for k, v in req.h_cache_control.items:
        if REG['cache_directive'].get(k, {}).get('for_request') is False:
            req.tell(1152, directive=k)
        if k == 'no-cache' and v is not None:
            req.say(1159)
        if info.get('cacheable') is False and k in (
                'max-age', 'max-stale', 'min-fresh', 'no-cache', 'no-store',
                'only-if-cached'):
            req.tell(1171, directive=k)
    if req.has_cc('no-cache') and \
            not any(k == 'no-cache' for k, v in req.h_pragma.items
                    if v is None):
        req.say(1161)
    if any(100 <= c <= 199 for c, _ in req.h_warning.items):
        for c, _ in req.h_warning.items:
            if 100 <= c <= 199:
                req.tell(1165, code=c)
    for a, b in [('max-stale', 'min-fresh'), ('stale-if-error', 'min-fresh'),
                 ('max-stale', 'no-cache'), ('max-age', 'no-cache')]:
        if req.has_cc(a) and req.has_cc(b):
            req.tell(1193, directive1=a, directive2=b)
    for h in (req.h_authorization, req.h_proxy_authorization):
        if not h.ok:
            continue
        scheme, cred = h.value
        if scheme == 'basic':
            judge_basic(req, cred, req.shown(h.name))
        elif scheme == 'bearer':
            if tls is False:
                req.say(1261)
            if not isinstance(cred, str):
                req.say(1262)
        elif not cred:
            req.tell(1274, header=req.shown(h.name), scheme=scheme)
    ct = req.h_content_type
    if method == 'PATCH' and ct.ok and \
            MEDIA.get(ct.value[0], {}).get('patch') is False:
        req.say(1213)
    settings = req.h_http2_settings
    if any(n == 'h2c' for n, _ in req.h_upgrade.items):
        if tls:
            req.say(1233)
        if settings.absent:
            req.say(1231)
    if settings.present and not req.connection('http2-settings'):
        req.say(1230)
    if settings.ok and not re.fullmatch(r'[A-Za-z0-9_-]*', settings.value):
        req.say(1234)
    req.uri = effective_uri(req)
    query = req.d['target'].partition('#')[0].partition('?')[2] \
        if req.form in ('origin', 'absolute') else ''
    req.query_token = 'access_token' in form_keys(query)
    if req.query_token:
        req.say(1270)
        if tls is False:
            req.say(1271)
        if not req.has_cc('no-store'):
            req.say(1272)
    req.form_token = posted_token(req)
    if tls is False and req.form_token:
        req.say(1271)
    elif tls is False and req.form_token is None:
        req.maybe(1271)
    for name in ('accept', 'accept-charset', 'accept-encoding',
                 'accept-language'):
        elems = req.h(name).items
        if odd_wildcards(elems, name == 'accept'):
            req.maybe(1276)
        else:
            for a, b in subsumption(elems, name == 'accept'):
                req.tell(1276, header=req.shown(name), wildcard=a, value=b)
    prefs = req.h_prefer.items
    names = [k for k, _ in prefs]
    if len(set(names)) < len(names):
        for k in names:
            if names.count(k) > 1:
                req.tell(1285, name=k)
    if req.directive('prefer', 'respond-async') and info.get('safe'):
        req.say(1287)
    ret = req.directive('prefer', 'return')
    if ret == 'minimal' and method == 'GET':
        req.say(1288)
    if ('return', 'minimal') in prefs and ('return', 'representation') in prefs:
        req.say(1289)
    if ('handling', 'strict') in prefs and ('handling', 'lenient') in prefs:
        req.say(1290)


def resolve(base, ref):
    """RFC 3986 section 5.2."""
    rx = re.compile(r'^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?',
                    re.S)
    b, r = rx.match(base), rx.match(ref)

    def dots(path):
        out = []
        segs = path.split('/')
        for i, s in enumerate(segs):
            last = i == len(segs) - 1
            if s == '..':
                if len(out) > 1:
                    out.pop()
                if last:
                    out.append('')
            elif s == '.':
                if last:
                    out.append('')
            else:
                out.append(s)
        return '/'.join(out)

    frag = r[8] or ''
    if r[2]:
        return r[1] + (r[3] or '') + dots(r[5]) + (r[6] or '') + frag
    if r[3]:
        return (b[1] or '') + r[3] + dots(r[5]) + (r[6] or '') + frag
    if not r[5]:
        return (b[1] or '') + (b[3] or '') + b[5] + (r[6] or b[6] or '') + frag
    if r[5].startswith('/'):
        path = dots(r[5])
    elif b[3] and not b[5]:
        path = dots('/' + r[5])
    else:
        path = dots(b[5][:b[5].rfind('/') + 1] + r[5])
    return (b[1] or '') + (b[3] or '') + path + (r[6] or '') + frag


PLAIN_URI = re.compile(r"https?://[a-z0-9.]+(:[0-9]+)?"
                       r"(/[A-Za-z0-9_.=&,;:@!$'()*+~%?/-]*)?")
PLAIN_REF = re.compile(r"(https?://[a-z0-9.]+(:[0-9]+)?)?"
                       r"(/?[A-Za-z0-9_.=&,;@!$'()*+~%-]"
                       r"[A-Za-z0-9_.=&,;@!$'()*+~%/-]*|/)?"
                       r"(\?[A-Za-z0-9_.=&/-]+)?(#\w+)?")


def to_itself(uri, ref):
    """True / False / None where schools differ (oddities of RFC 1808, ...)"""
    if not PLAIN_URI.fullmatch(uri) or not PLAIN_REF.fullmatch(ref) or \
            '//' in uri.split('://')[1] or ';' in uri + ref or \
            re.search(r'(^|/)\.\.?(/|$|\?)', uri + ' ' + ref):
        return None if resolve(uri, ref) != uri else \
            (True if uri == ref else None)
    return resolve(uri, ref) == uri


def response(resp, req):
    d = resp.d
    status = d['status']
    cls = status // 100
    tls = req.tls if req else None
    method = req.d['method'] if req else None
    minfo = REG['method'].get(method, {})
    resp.transformed = False
    both(resp, tls, status)
    body = resp.body
    if d['reason'] is not None and not re.fullmatch(
            r'[\t \x21-\x7e\x80-\xff]*', d['reason']):
        resp.say(1294)
    if not 100 <= status <= 599:
        resp.say(1167)
    te = [t[0] for t in resp.h_transfer_encoding.items]
    by_close = bool(
        req and resp.h1 and resp.h_content_length.absent and
        'chunked' not in te and cls != 1 and status not in (204, 304) and
        method != 'HEAD' and not (method == 'CONNECT' and cls == 2))
    if by_close:
        resp.say(1025)
        if resp.h11 and not resp.connection('close'):
            resp.say(1047)
    for n in resp.names:
        if header_info(n).get('for_response') is False:
            resp.tell(1064, header=resp.shown(n))
    if status == 101:
        if resp.h_upgrade.absent:
            resp.say(1048)
        if resp.h2:
            resp.say(1246)
    if status == 204 and body:
        resp.say(1240)
    if status == 205 and body:
        resp.say(1076)
    if resp.h_location.absent:
        resp.must |= {301: {1078}, 302: {1079}, 303: {1080}, 307: {1084},
                      308: {1205}}.get(status, set())
    resp.must |= {305: {1082}, 306: {1083}, 402: {1088}}.get(status, set())
    if status == 405 and resp.h_allow.absent:
        resp.say(1089)
    if status == 408 and not resp.connection('close'):
        resp.say(1094)
    if resp.h_date.absent and cls in (2, 3, 4):
        resp.say(1110)
    if status == 201 and resp.h_location.ok and \
            resp.h_location.value.partition('#')[2]:
        resp.say(1111)
    date, lm = resp.h_date.value, resp.h_last_modified.value
    if okay(date) and okay(lm) and date < lm:
        resp.say(1118)
    if status == 304:
        for n in resp.names:
            if n not in ('etag', 'last-modified') and \
                    header_info(n).get('representation_metadata'):
                resp.tell(1127, header=resp.shown(n))
    byteranges = resp.h_content_type.ok and \
        resp.h_content_type.value[0] == 'multipart/byteranges'
    if status == 206:
        if byteranges:
            judge_byteranges(resp, req)
            if resp.h_content_range.present:
                resp.say(1143)
        elif resp.h_content_range.absent:
            resp.say(1138)
    for k, v in resp.h_cache_control.items:
        if REG['cache_directive'].get(k, {}).get('for_response') is False:
            resp.tell(1153, directive=k)
    if any((k, v) == ('no-cache', None) for k, v in resp.h_pragma.items):
        resp.say(1162)
    if status == 451:
        rels = [first(ps, 'rel') for _, ps in resp.h_link.items]
        if not any(isinstance(r, list) and 'blocked-by' in r for r in rels):
            resp.say(1243)
    judge_disposition(resp)
    if resp.h_alt_svc.present:
        if resp.h2:
            resp.say(1258)
        if status == 421:
            resp.say(1260)
    sts = resp.h_strict_transport_security
    if sts.ok:
        names = [k for k, _ in sts.value]
        if 'max-age' not in names:
            resp.say(1218)
        age = first(sts.value, 'max-age')
        if okay(age) and age == 0 and 'includesubdomains' in names:
            resp.say(1219)
        if len(set(names)) < len(names):
            for k in names:
                if names.count(k) > 1:
                    resp.tell(1220, directive=k)
    for mt, _ in resp.h_accept_patch.items:
        if MEDIA.get(mt, {}).get('patch') is False:
            resp.tell(1227, patch_type=mt)
    for a, b in [('public', 'no-store'), ('private', 'public'),
                 ('private', 'no-store'),
                 ('must-revalidate', 'stale-while-revalidate'),
                 ('must-revalidate', 'stale-if-error')]:
        if resp.has_cc(a) and resp.has_cc(b):
            resp.tell(1193, directive1=a, directive2=b)
    for a, b in [('max-age', 'no-cache'), ('max-age', 'no-store'),
                 ('s-maxage', 'private'), ('s-maxage', 'no-cache'),
                 ('s-maxage', 'no-store')]:
        if resp.has_cc(a) and (resp.cc(b) is True or resp.cc(b) == []):
            resp.tell(1238, directive1=a, directive2=b)
    if 'host' in resp.h_vary.items:
        resp.say(1235)
    if status == 401 and resp.h_www_authenticate.absent:
        resp.say(1194)
    if status == 407 and resp.h_proxy_authenticate.absent:
        resp.say(1195)
    for h in (resp.h_www_authenticate, resp.h_proxy_authenticate):
        for scheme, params in h.items:
            if scheme == 'basic':
                shown = resp.shown(h.name)
                if isinstance(params, str):
                    resp.tell(1273, header=shown)
                    continue
                names = [k for k, _, _ in params]
                if 'realm' not in names:
                    resp.tell(1206, header=shown)
                for k, v, _ in params:
                    if k == 'charset' and v.lower() != 'utf-8':
                        resp.tell(1208, header=shown, charset=v)
                for k in set(names) - {'realm', 'charset'}:
                    resp.tell(1207, header=shown, param=k)
            elif scheme == 'bearer' and h.name == 'www-authenticate':
                judge_bearer(resp, req, params, status, tls)
    if status != 103:
        final_rules(resp, req, status, cls, tls, by_close)
    if req:
        in_context(resp, req, status, cls, method, minfo, body, byteranges)


def judge_disposition(resp):
    cd = resp.h_content_disposition
    if not cd.ok:
        return
    params = cd.value[1]
    names = [k for k, _ in params]
    if len(set(names)) < len(names):
        for k in names:
            if names.count(k) > 1:
                resp.tell(1247, param=k)
    fn = first(params, 'filename')
    if fn is not None:
        if re.search('%[0-9A-Fa-f]{2}', fn):
            resp.say(1248)
        if '"' in fn or '\\' in fn:
            resp.say(1249)
        if any(ord(c) > 127 for c in fn):
            resp.say(1250)
    if 'filename*' in names:
        if fn is None:
            resp.say(1251)
        elif names.index('filename*') < names.index('filename'):
            resp.say(1252)


def judge_bearer(resp, req, params, status, tls):
    if tls is False:
        resp.say(1263)
    if isinstance(params, str) or not params:
        resp.say(1264)
        return
    names = [k for k, _, _ in params]
    known = ['realm', 'scope', 'error', 'error_description', 'error_uri']
    for k in known:
        if names.count(k) > 1:
            resp.tell(1265, param=k)
    vals = {}
    for k, v, _ in params:
        vals.setdefault(k, v)
    for k, rule in [('scope', 'scope'), ('error', 'error-text'),
                    ('error_description', 'error-text'),
                    ('error_uri', 'URI-reference')]:
        if k in vals and not values.matches(rule, vals[k]):
            resp.tell(1266, param=k, value=vals[k])
    has_auth = used_bearer = False
    if req:
        auth = req.h_authorization
        has_auth = auth.present
        used_bearer = auth.ok and auth.value[0] == 'bearer'
    if status == 401 and 'error' not in vals and used_bearer:
        resp.say(1267)
    if 'error' in vals:
        want = {'invalid_request': 400, 'invalid_token': 401,
                'insufficient_scope': 403}.get(vals['error'])
        if want and status != want:
            resp.tell(1268, error_code=vals['error'], expected_status=want)
    if req and not has_auth and not req.query_token and \
            {'error', 'error_description', 'error_uri'} & set(vals):
        resp.texts += [(1269, {'param': k}) for k in vals
                       if k in ('error', 'error_description', 'error_uri')]
        if req.form_token is None:
            resp.maybe(1269)
        elif not req.form_token:
            resp.say(1269)


def judge_byteranges(resp, req):
    if req and req.d['method'] == 'HEAD' or not resp.body:
        if not resp.body and resp.body is not None and \
                not (req and req.d['method'] == 'HEAD'):
            pass            # an empty body has no parts
        return
    ct = resp.h_content_type.value
    bs = [v for k, v in ct[1] if k == 'boundary']
    if len(bs) != 1 or resp.h_content_encoding.present or \
            len([1 for k, _ in resp.lines if k.lower() == 'content-type']) > 1 \
            or not re.fullmatch(r'[A-Za-z0-9_-]+', bs[0]):
        resp.maybe(1141, 1142)
        return
    parts = simple_parts(resp.body, bs[0].encode())
    if parts is None:
        resp.maybe(1141, 1142)
        return
    for k, names in enumerate(parts, 1):
        if b'content-range' not in names:
            resp.tell(1141, part_num=k)
        if b'content-type' not in names:
            resp.tell(1142, part_num=k)


def simple_parts(body, boundary):
    """Header names of each part of a plainly formed multipart body."""
    delim = b'--' + boundary
    if not body.startswith(delim + b'\r\n'):
        return None
    m = re.fullmatch(delim + rb'\r\n(.*)\r\n' + delim + rb'--[ \t]*(\r\n.*)?',
                     body, re.S)
    if not m:
        return None
    parts = m[1].split(b'\r\n' + delim + b'\r\n')
    r = []
    for p in parts:
        if delim in p:
            return None
        if p.startswith(b'\r\n'):
            r.append([])
            continue
        head, sep, _ = p.partition(b'\r\n\r\n')
        if not sep:
            return None
        names = []
        for line in head.split(b'\r\n'):
            mm = re.fullmatch(rb'([A-Za-z-]+):[ \t]*([\x21-\x7e ]*)', line)
            if not mm:
                return None
            names.append(mm[1].lower())
            if mm[1].lower() == b'content-type' and \
                    mm[2].lower().startswith((b'multipart', b'message')):
                return None
        r.append(names)
    return r


def final_rules(resp, req, status, cls, tls, by_close):
    """What does not apply to 103 (Early Hints)."""
    if cls == 1 or status == 204:
        if resp.h_transfer_encoding.present:
            resp.say(1018)
        if resp.h_content_length.present:
            resp.say(1023)
    if cls == 1 and resp.connection('close'):
        resp.say(1198)
    if cls == 1:
        for n in resp.names:
            if header_info(n).get('representation_metadata'):
                resp.tell(1052, header=resp.shown(n))
    if resp.h_location.present and cls != 3 and status != 201:
        resp.say(1112)
    if resp.h_retry_after.present and cls != 3 and \
            status not in (413, 503, 429):
        resp.say(1113)
    if resp.h_content_range.present and status not in (206, 416):
        resp.say(1147)

    # Did it come from a cache?
    date, age = resp.h_date.value, resp.h_age.value
    cached = None
    now = datetime.datetime.utcnow()
    impossible = unsure = False
    if okay(date) and okay(age):
        limit = (now - date).total_seconds() + 30
        impossible = age > limit
        unsure = -5 < age - limit < 5
    codes = [c for c, _ in resp.h_warning.items]
    cc = resp.h_cache_control
    if impossible:
        resp.say(1241)
    elif resp.h_age.present:
        resp.say(1168)
        cached = True
    elif any(100 <= c < 200 for c in codes):
        resp.tell(1169, code=OneOf(c for c in codes if 100 <= c < 200))
        cached = True
    resp.cached = cached
    sinfo = REG['status_code'].get(str(status), {})
    if cached:
        if resp.h_age.absent:
            resp.say(1166)
        if resp.cc('no-cache') is True or resp.cc('no-cache') == []:
            resp.say(1175)
        if resp.has_cc('no-store'):
            resp.say(1176)
        if sinfo.get('cacheable') == 'not_at_all':
            resp.say(1202)
        if sinfo.get('cacheable') == 'not_by_default' and \
                resp.h_expires.absent and cc.absent:
            resp.say(1177)
    heuristic = False
    if cached:
        if 113 in codes:
            resp.say(1179)
            heuristic = True
        elif resp.h_expires.absent and cc.absent:
            resp.say(1178)
            heuristic = True
    if heuristic:
        if okay(age) and age > 86400 and 113 not in codes:
            resp.say(1180)
        if resp.h_expires.present:
            resp.say(1181)
        elif resp.cc('max-age') is not None:
            resp.say(1182)
    max_age, expires = resp.cc('max-age'), resp.h_expires.value
    stale = False
    if 110 in codes or 111 in codes:
        resp.tell(1183, code=OneOf(c for c in codes if c in (110, 111)))
        stale = True
    elif resp.cc('s-maxage') is None and okay(age):
        if okay(max_age) and max_age is not True and age > max_age:
            resp.say(1184)
            stale = True
        elif max_age is None and okay(expires) and okay(date) and \
                age > (expires - date).total_seconds():
            resp.say(1185)
            stale = True
    resp.stale = stale
    if stale:
        if 110 not in codes:
            resp.say(1186)
        if resp.has_cc('must-revalidate'):
            resp.say(1187)
    if resp.has_cc('immutable'):
        expired = resp.h_expires.absent or \
            (okay(expires) and okay(date) and expires <= date)
        if expired and not resp.has_cc('max-age'):
            resp.say(1301)
        if tls is False:
            resp.say(1302)
        if by_close:
            resp.say(1303)
    if resp.h_allow.present:
        if resp.h_accept_patch.present and 'PATCH' not in resp.h_allow.items:
            resp.say(1217)
        if resp.h_accept_post.present and 'POST' not in resp.h_allow.items:
            resp.say(1310)
    if resp.transformed and resp.h_via.absent:
        resp.say(1046)
    if unsure:
        resp.may |= {1241, 1168, 1166, 1175, 1176, 1177, 1178, 1179, 1180, 1181,
                     1182, 1202, 1170, 1172, 1173, 1174}
        resp.must -= resp.may


def in_context(resp, req, status, cls, method, minfo, body, byteranges):
    ok2 = cls == 2
    if body and resp.h_content_type.absent and \
            (status != 206 or req.h_if_range.absent):
        resp.say(1041)
    if method == 'CONNECT' and ok2:
        if resp.h_transfer_encoding.present:
            resp.say(1019)
        if resp.h_content_length.present:
            resp.say(1024)
        if resp.connection('close'):
            resp.say(1199)
    if method == 'HEAD' and body:
        resp.say(1239)
    if req.version == 'HTTP/1.0' and resp.h_transfer_encoding.present:
        resp.say(1306)
    hosts = [1 for k, _ in req.lines + req.trailers if k.lower() == 'host']
    if req.h11 and cls in (2, 3) and (not req.h_host.ok or len(hosts) > 1):
        resp.say(1033)
    to_proxy = None
    if req.h1:
        to_proxy = req.form == 'absolute'
        if to_proxy:
            req.say(1236)
    if resp.transformed and to_proxy is False:
        resp.say(1237)
    if to_proxy and ok2 and resp.h_via.absent:
        resp.say(1046)
    offered = req.h_upgrade.items
    chosen = resp.h_upgrade.items
    if status == 101:
        for p in chosen:
            if p not in offered:
                resp.say(1049)
            elif p[0] == 'h2c' and not req.h_http2_settings.ok:
                resp.say(1232)
        if req.version == 'HTTP/1.0':
            resp.say(1051)
    elif cls == 1 and req.version == 'HTTP/1.0':
        resp.say(1071)

    def itself(ref, *ids):
        r = to_itself(req.uri, ref)
        if r:
            resp.say(*ids)
        elif r is None:
            resp.maybe(*ids)
    cl = resp.h_content_location
    if cl.ok and req.uri:
        if method in ('GET', 'HEAD') and status in (200, 203, 204, 206, 304):
            itself(cl.value, 1055)
        if method == 'DELETE':
            itself(cl.value, 1060)
    loc = resp.h_location
    if loc.ok and req.uri and req.d['scheme']:
        if status in (300, 307, 308) or \
                status in (301, 302, 303) and method != 'POST':
            itself(loc.value, 1085)
    if method == 'PUT' and req.h_content_range.present and ok2:
        resp.say(1058)
    if minfo.get('safe'):
        resp.must |= {201: {1072}, 202: {1074}, 409: {1095}}.get(status, set())
    if status == 201 and method == 'POST' and loc.absent:
        resp.say(1073)
    if method != 'HEAD' and body == b'':
        special = {202: 1284, 300: 1077, 303: 1081, 406: 1092, 409: 1096,
                   428: 1201, 429: 1203, 451: 1242, 505: 1106, 511: 1204}
        if status in special:
            resp.say(special[status])
        elif cls == 4:
            resp.say(1087)
        elif cls == 5:
            resp.say(1104)
    if method == 'OPTIONS' and req.form == 'asterisk' and \
            status in (300, 301, 302, 307, 308):
        resp.say(1086)
    if status == 406:
        conneg = {n for n in req.names
                  if header_info(n).get('proactive_conneg')}
        if not conneg:
            resp.say(1090)
        elif conneg == {'accept-language'}:
            resp.say(1117)
    if status == 411 and req.h_content_length.ok:
        resp.say(1097)
    if req.body == b'':
        if status == 413:
            resp.say(1098)
        if status == 415 and req.h_content_type.absent:
            resp.say(1099)
    if status == 417 and req.h_expect.absent:
        resp.say(1100)
    if any(p in offered for p in chosen):
        for p in chosen:
            shown = p[0] if p[1] is None else '%s/%s' % p
            if p in offered and status == 426:
                resp.tell(1102, protocol=shown)
            elif p in offered and ok2:
                resp.tell(1103, protocol=shown)
    if status == 426 and not resp.h_upgrade.value:
        resp.say(1101)
    if status == 505 and resp.version and resp.version == req.version:
        resp.say(1105)
    if status == 405:
        if method in resp.h_allow.items:
            resp.say(1114)
    elif ok2 and resp.h_allow.present and method not in resp.h_allow.items:
        resp.say(1115)
    etag = resp.h_etag.value
    if method in ('GET', 'HEAD') and ok2:
        if okay(etag):
            inm = req.h_if_none_match
            if inm.value == '*' or any(o == etag[1] for _, o in inm.items):
                resp.say(1121)
        else:
            ims = req.h_if_modified_since.value
            lm = resp.h_last_modified.value
            if okay(ims) and okay(lm) and ims >= lm:
                resp.say(1123)
    if status in (304, 412):
        pre = {n for n in req.names if header_info(n).get('precondition')}
        if status == 304 and method not in ('GET', 'HEAD'):
            resp.say(1124)
        elif not pre:
            resp.say(1125)
        elif pre == {'if-modified-since'}:
            if method not in ('GET', 'HEAD'):
                resp.say(1128)
        elif pre <= set(REQ_PRECONDITIONS):
            if method in ('CONNECT', 'OPTIONS', 'TRACE'):
                resp.say(1129)
    rng = req.h_range
    one_bytes = rng.ok and rng.value[0] == 'bytes'
    if status == 206:
        if rng.absent:
            resp.say(1136)
        elif method != 'GET':
            resp.say(1137)
        if byteranges and one_bytes and len(rng.value[1]) == 1:
            resp.say(1144)
        ifr = req.h_if_range
        if okay(ifr.value) and ifr.value[0] == 'tag' and okay(etag):
            weak, opaque = ifr.value[1]
            if weak or etag[0] or opaque != etag[1]:
                resp.say(1145)
        for n in resp.names:
            if ifr.present and n not in ('etag', 'content-location') and \
                    header_info(n).get('representation_metadata'):
                resp.tell(1146, header=resp.shown(n))
    if status == 416:
        if rng.absent:
            resp.say(1149)
        if one_bytes and resp.h_content_range.absent:
            resp.say(1150)
    if status == 103:
        resp.cached = resp.stale = None
    if resp.cached:
        if minfo.get('cacheable') is False:
            resp.say(1172)
        age, limit = resp.h_age.value, req.cc('max-age')
        if okay(age) and okay(limit) and limit is not True and age > limit:
            resp.say(1170)
        if req.has_cc('no-cache'):
            resp.say(1173)
        elif req.h_cache_control.absent and \
                any((k, v) == ('no-cache', None)
                    for k, v in req.h_pragma.items):
            resp.say(1174)
    if resp.stale and not resp.warn(111) and not resp.warn(112) and \
            req.cc('max-stale') is None and \
            req.cc('stale-if-error') is None and \
            resp.cc('stale-if-error') is None and \
            resp.cc('stale-while-revalidate') is None:
        resp.say(1188)
    if status == 428:
        for n in req.names:
            if header_info(n).get('precondition'):
                resp.tell(1200, header=req.shown(n))
    if method == 'PATCH':
        ct = req.h_content_type
        if ok2 and ct.ok and MEDIA.get(ct.value[0], {}).get('patch') is False:
            resp.say(1214)
        if status == 415 and resp.h_accept_patch.absent:
            resp.say(1215)
    if resp.h_strict_transport_security.present and req.tls is False:
        resp.say(1221)
    if status == 421 and minfo.get('cacheable') and not resp.has_cc('no-store'):
        resp.say(1283)
    prefs = [(k, same(v)) for k, v in req.h_prefer.items]
    for k, v in resp.h_preference_applied.items:
        if (k, same(v)) not in prefs:
            if isinstance(v, Bad) and v.text == '':
                v = OneOf(['', '='])
            elif v is not None:
                v = '=%s' % (v.text if isinstance(v, Bad) else v)
            resp.tell(1286, name=k, value='' if v is None else v)
    if status == 103:
        return
    if method == 'OPTIONS' and 'PATCH' in resp.h_allow.items and \
            resp.h_accept_patch.absent:
        resp.say(1216)
    if resp.h_preference_applied.present and method == 'GET' and \
            resp.h_vary.value != '*' and 'prefer' not in resp.h_vary.items:
        resp.say(1291)


def same(v):
    return ('bad', v.text) if isinstance(v, Bad) else v


def judge(spec):
    """(Message of the request or None, [Message of each response])"""
    req = None
    waiting = False
    if spec['req'] is not None:
        req = Message(spec['req'], 'req')
        request(req)
        waiting = req.h_expect.value == '100-continue'
    resps = []
    final = None
    for d in spec['resps']:
        r = Message(d, 'resp')
        if final is not None:
            r.tell(1304, **{'previous.status': final.d['status']})
        elif d['status'] // 100 != 1:
            final = r
        response(r, req)
        if d['status'] == 100:
            waiting = False
        elif d['status'] == 101 and waiting:
            r.say(1305)
        resps.append(r)
    for m in ([req] if req else []) + resps:
        m.may -= m.must
    return req, resps
