"""HAR files: well-formed ones with what they describe, and hostile ones."""

import base64
import json
from urllib.parse import urlsplit

from vp import gen

CREATORS = ['WebInspector', 'Firefox', 'F12 Developer Tools', 'Fiddler',
            'Some Tool', 'Charles Proxy', 'firefox', '']
WEIRD = [None, True, False, 0, -1, 1, 2.5, 10 ** 30, 1e308, '', 'x', '\u044f',
         '\ud800', '\x00', 'a\nb', [], {}, [[]], [None], {'name': 'x'},
         {'text': 1}, 'http://[', 'http://[::1', '//', ':', '204', -5, 99, 1000,
         float('nan'), float('inf'), '\U0001f600', 'base64', 'gzip', '\r\n',
         float('-inf'), 10 ** 400, True, '\u0662\u0660\u0660', b'\xff'.decode('latin-1')]

KEYS = ['status', 'bodySize', 'size', 'encoding', 'text', 'method', 'url', 'name',
        'value', 'statusText', 'httpVersion', 'headers', 'content', 'postData',
        'creator', 'entries', 'request', 'response']

URLS = ['http://example.com/', 'https://example.com/a/b?c=d',
        'http://example.com', 'http://example.com/?x', 'http://example.com/a?',
        'https://example.com:8443/x?y=z&w', 'http://[::1]:80/x',
        'http://example.com/%D1%8F?q=%20', 'http://example.com/a//b',
        'http://example.com/a;b', 'http://example.com/a;b?c;d',
        'http://example.com/x;', 'http://example.com/;v=1/y;w=2?z',
        'http://user@example.com/x', 'HTTP://EXAMPLE.com/Up',
        'http://example.com?a=b', 'ws://example.com/chat',
        'http://example.com/a?b#c?d', 'http://example.com/#', 'http://example.com#x',
        'http://example.com/a#?b',
        'http://example.com/?access_token=foo', 'http://example.com/a?b?c',
        "http://example.com/!$&'()*+,=:@"]


def text_value(v):
    """Header values in HAR are text."""
    return v.decode('iso-8859-1')


def headers(rng, pool, host):
    hs = []
    if host:
        hs.append((gen.recase('Host', rng), 'example.com'))
    for _ in range(rng.choice([0, 1, 2, 4])):
        name = gen.recase(rng.choice(pool + gen.OTHER_HEADERS), rng)
        if name.lower() == 'host':
            continue
        hs.append((name, text_value(gen.value(name, rng, .1))))
    if rng.random() < .2:
        pos = rng.choice([0, len(hs)])
        hs[pos:pos] = rng.choice([[(':method', 'GET'), (':path', '/x')],
                                  [(':status', '200')],
                                  [(':authority', 'example.com')]])
    return hs


def har_headers(hs):
    return [{'name': k, 'value': v} for k, v in hs]


def some_text(rng):
    return rng.choice(['hello', '{"a": 1}', '\u044f', 'a=b&c=d', '<a/>', 'x' * 300,
                       '\U0001f600', '\x00', '\r\n', '[1, 2', '<a>'])


def entry(rng, creator):
    """-> (HAR entry, what it describes)

    Described: method, target, scheme, version, headers, body for the request;
    status, reason, version, headers, body for the response (or None).
    A body is described as ('raw', bytes), ('unknown',), ('hidden',),
    ('text', str) or ('decoded', bytes).
    """
    method = rng.choice(['GET', 'GET', 'GET', 'POST', 'PUT', 'HEAD', 'CONNECT',
                         'FOO', 'OPTIONS', 'PROPFIND'])
    url = rng.choice(URLS)
    if method == 'CONNECT':
        url = rng.choice(['https://example.com:443', 'http://example.com:443/',
                          'https://[::1]:443'])
    host = rng.random() < .6
    hv = rng.choice(['HTTP/1.1', 'HTTP/1.1', 'HTTP/1.0', 'HTTP/2.0', 'HTTP/2',
                     'h2', 'unknown', '', 'http/1.1', 'http/2.0', 'HTTP/3'])
    qh = headers(rng, gen.REQUEST_HEADERS, host)
    q = {'method': method, 'url': url, 'httpVersion': hv, 'cookies': [],
         'headers': har_headers(qh), 'queryString': [], 'headersSize': -1}
    qsize = rng.choice([0, 0, -1, 1, 5, 1000])
    q['bodySize'] = qsize
    described_body = {0: ('raw', b''), -1: ('unknown',)}.get(
        qsize, ('hidden',))
    qknown = described_body         # what is known apart from the text
    r = rng.random()
    if r < .3:
        text = some_text(rng)
        q['postData'] = {'mimeType': 'text/plain', 'params': [], 'text': text}
        described_body = ('text', text)
        if qknown == ('raw', b''):
            qknown = ('hidden',)
        if creator == 'Fiddler' and method == 'CONNECT':
            if rng.random() < .7:
                q['postData']['text'] = 'x Fiddler ' + text
                described_body = qknown = ('raw', b'')
    elif r < .4:
        q['postData'] = rng.choice([
            None, {'mimeType': 'x', 'params': [{'name': 'a', 'value': 'b'}]},
            {'mimeType': 'x', 'params': [], 'text': ''}])
    parts = urlsplit(url)
    rest = url[url.index('://') + 3:]       # what follows the authority, as is
    cut = min([rest.index(c) for c in '/?#' if c in rest] or [len(rest)])
    tail = rest[cut:]
    if method == 'CONNECT':
        target = rest[:cut]
    elif any(k.lower() == 'host' for k, _ in qh):
        tail = tail.partition('#')[0]
        target = tail if tail.startswith('/') else '/' + tail
    else:
        target = url
    known_version = hv if hv.startswith('HTTP/') and creator not in (
        'WebInspector', 'Firefox', 'F12 Developer Tools') else None
    req = {'method': method, 'target': target, 'scheme': parts.scheme,
           'version': known_version, 'body': described_body, 'size': qknown,
           'headers': [(k, v) for k, v in qh if not k.startswith(':')]}

    status = rng.choice([200, 200, 200, 201, 204, 206, 301, 304, 304, 404, 500,
                         101, 0, 999])
    reason = rng.choice(['OK', '', 'Not Found', 'caf\xe9', 'Connected'])
    rv = rng.choice(['HTTP/1.1', 'HTTP/1.1', 'HTTP/2.0', 'HTTP/1.0', '',
                     'h3', 'unknown'])
    rh = headers(rng, gen.RESPONSE_HEADERS, False)
    described_rh = [(k, v) for k, v in rh if not k.startswith(':')]
    tunnel = creator == 'Fiddler' and method == 'CONNECT' and \
        200 <= status < 300
    if tunnel or rng.random() < .05:
        extra = [('EndTime', '1'), ('ClientToServerBytes', '2'),
                 ('ServerToClientBytes', '3')]
        if rng.random() < .2:
            extra = [(k.lower(), v) for k, v in extra]
        rh = rh + extra
        if not tunnel:
            described_rh = described_rh + extra
    rsize = rng.choice([0, -1, -1, 1, 5, 1000])
    csize = rng.choice([0, -1, 1, 5, 1000])
    content = {'size': csize, 'mimeType': 'text/plain'}
    p = {'status': status, 'statusText': reason, 'httpVersion': rv,
         'cookies': [], 'headers': har_headers(rh), 'redirectURL': '',
         'headersSize': -1, 'bodySize': rsize, 'content': content}
    if rsize == 0 or csize == 0 or status == 304:
        b = ('raw', b'')
    elif creator == 'Firefox':
        b = ('unknown',)
    elif rsize > 0 or csize > 0:
        b = ('hidden',)
    else:
        b = ('unknown',)
    known = b
    r = rng.random()
    if r < .3:
        content['text'] = some_text(rng)
        if status != 304:
            b = ('text', content['text'])
            known = ('hidden',) if known == ('raw', b'') else known
    elif r < .6:
        raw = gen.body(rng) or b'x'
        if tunnel and rng.random() < .7:
            raw = b'about Fiddler ' + raw
        content['text'] = base64.b64encode(raw).decode()
        content['encoding'] = rng.choice(['base64', 'base64', 'Base64'])
        if status != 304:
            b = ('decoded', raw)
            known = ('hidden',) if known == ('raw', b'') else known
            if tunnel and b'Fiddler' in raw:
                b = known = ('raw', b'')
    elif r < .63:
        # Not what it says it is; nothing can be known from it
        content['text'] = rng.choice(['abcde', '\u044f', 'YQ', 'a', 'YWJjZ'])
        content['encoding'] = 'base64'
    elif r < .66:
        content['text'] = 'abcde'
        content['encoding'] = rng.choice(['gzip', 'foo', ''])
    elif r < .7:
        content['text'] = ''
    resp = None
    if status != 0:
        resp = {'status': status, 'reason': reason, 'headers': described_rh,
                'version': rv if rv.startswith('HTTP/') and creator not in (
                    'WebInspector', 'Firefox', 'F12 Developer Tools')
                else None, 'body': b, 'size': known}
    e = {'startedDateTime': '2016-01-05T12:00:00Z', 'time': 1, 'request': q,
         'response': p, 'cache': {}, 'timings': {}}
    if rng.random() < .3:       # Other things that real files contain.
        e.update(pageref='page_1', connection='443', comment='x',
                 serverIPAddress='10.0.0.1', _fromCache='disk', _priority='x')
        q.update(comment='GET', _x={'method': 'PUT'},
                 queryString=[{'name': 'q', 'value': 'z'}],
                 cookies=[{'name': 'a', 'value': 'b'}], _transferSize=5)
        p.update(_transferSize=7, _error=None, comment='404')
        content.update(compression=-3, comment='x', _size=9)
        for x in q['headers'] + p['headers']:
            x['comment'] = ''
    return e, (req, resp)


def har(rng, n=None):
    """-> (HAR data, [(request, response)])"""
    creator = rng.choice(CREATORS)
    pairs = [entry(rng, creator)
             for _ in range(rng.choice([0, 1, 2, 3, 5]) if n is None else n)]
    data = {'log': {'version': '1.2',
                    'creator': {'name': creator, 'version': '1'},
                    'pages': [], 'entries': [e for e, _ in pairs]}}
    return data, [d for _, d in pairs]


def dump(data, rng):
    s = json.dumps(data, ensure_ascii=rng.random() < .5,
                   indent=rng.choice([None, 1]))
    b = s.encode('utf-8', 'surrogatepass')
    return (b'\xef\xbb\xbf' if rng.random() < .2 else b'') + b


def paths(data, prefix=()):
    if prefix:
        yield prefix
    if isinstance(data, dict):
        for k in data:
            for p in paths(data[k], prefix + (k,)):
                yield p
    elif isinstance(data, list):
        for k, x in enumerate(data):
            for p in paths(x, prefix + (k,)):
                yield p


def hostile(rng):
    """A HAR file (bytes) with a few oddities."""
    data, _ = har(rng)
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        ps = list(paths(data))
        if not ps:
            break
        if rng.random() < .5:       # something that is looked at
            key = rng.choice(KEYS)
            ps = [x for x in ps if x[-1] == key] or ps
        path = rng.choice(ps)
        obj = data
        for k in path[:-1]:
            obj = obj[k]
        if rng.random() < .25:
            del obj[path[-1]]
        else:
            obj[path[-1]] = rng.choice(WEIRD)
    b = dump(data, rng)
    r = rng.random()
    if r < .15:
        b = gen.mutate(b, rng)
    elif r < .2:
        b = b[:rng.randint(0, len(b))]
    elif r < .25:
        b = rng.choice([b'', b'null', b'[]', b'{}', b'\xff\xfe', b'"x"', b'1',
                        b'[' * 100000, b'{"log":' * 50000, b'1' * 10000,
                        b'{"log": {"entries": []}}', b'\xef\xbb\xbf',
                        b'{"log":{"creator":{"name":{}},"entries":[{}]}}'])
    return b
