from tools.seedlist.a import PRE

HARPRE = PRE + '''
import json
from httpolice.inputs.har import har_input

def har(req={}, resp={}, creator='demo'):
    q = {'method': 'GET', 'url': 'http://a.example/x', 'httpVersion': 'HTTP/1.1', 'cookies': [],
         'headers': [{'name': 'Host', 'value': 'a.example'}], 'queryString': [], 'headersSize': -1, 'bodySize': 0}
    p = {'status': 200, 'statusText': 'OK', 'httpVersion': 'HTTP/1.1', 'cookies': [], 'headers': [],
         'content': {'size': 0, 'mimeType': 'text/plain'}, 'redirectURL': '', 'headersSize': -1, 'bodySize': 0}
    q.update(req); p.update(resp)
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, 'x.har')
        with open(path, 'w') as f:
            json.dump({'log': {'version': '1.2', 'creator': {'name': creator, 'version': '1'},
                       'entries': [{'request': q, 'response': p}]}}, f)
        return list(har_input([path]))[0]
'''

SEEDS = [
 dict(id='c10-fiddler-headers', property='C10',
      needs='a HAR file from Fiddler with one of its extra header names in an ordinary response',
      breaks='headers that happen to have a name which Fiddler uses on CONNECT are lost from other responses',
      edits=[('inputs/har.py', '''    if creator in FIDDLER and req.method == m.CONNECT and status.successful:
        # Fiddler's HAR export adds extra''', '''    if creator in FIDDLER and status.successful:
        # Fiddler's HAR export adds extra''')],
      demo=HARPRE + '''
e = har(resp={'headers': [{'name': 'EndTime', 'value': '1'}]}, creator='Fiddler')
assert len(e.responses[0].header_entries) == 1
'''),
 dict(id='c10-size-only', property='C10',
      needs='a browser HAR file with bodySize -1, content size above zero and no text',
      breaks='a response known to have a body is taken as one that may have none',
      edits=[('inputs/har.py', "elif data['bodySize'] > 0 or data['content']['size'] > 0:\n        body = Unavailable()",
              "elif data['bodySize'] > 0:\n        body = Unavailable()")],
      demo=HARPRE + '''
e = har(resp={'status': 204, 'bodySize': -1, 'content': {'size': 5, 'mimeType': 'text/plain'}})
assert e.responses[0].body is not None
'''),
 dict(id='c11-two-codings', property='C11',
      needs='a body under two different content codings',
      breaks='codings are undone in the order they were applied',
      edits=[('message.py', 'coding = codings.pop()\n            decoder', 'coding = codings.pop(0)\n            decoder')],
      demo=PRE + '''
import gzip, zlib
e = check(None, Response('HTTP/1.1', 200, 'OK', [('Content-Encoding', 'gzip, deflate')], zlib.compress(gzip.compress(b'x'))))
assert 1037 not in ids(e.responses[0])
'''),
 dict(id='c11-xml-bom', property='C11',
      needs='XML in a charset given by the header only, other than UTF-8',
      breaks='the charset parameter does not count for XML',
      edits=[('message.py', "            if u'charset' in self.headers.content_type.param and \\\n", "            if u'Charset' in list(self.headers.content_type.param) and len(data) < 5 and \\\n")],
      demo=PRE + '''
e = check(None, Response('HTTP/1.1', 200, 'OK', [('Content-Type', 'text/xml; charset=iso-8859-1')], b'<aaaaaa>\\xe9</aaaaaa>'))
assert 1039 not in ids(e.responses[0])
'''),
 dict(id='c27-eager-start', property='C27',
      needs='a capture of several connections at different times',
      breaks='all connections of a capture are opened and their first exchanges read at the start',
      edits=[('inputs/streams.py', "    position = [(time_hint, None) for (_, time_hint) in sequences]",
              "    position = []\n    for (sequence, time_hint) in sequences:\n        first = next(sequence, None)\n        position.append(None if first is None else\n                        (_exchange_time(first, time_hint), first))"),
             ],
      demo=PRE + '''
from httpolice.inputs.streams import tcpflow_input
with tempfile.TemporaryDirectory() as d:
    for k in range(20):
        t = 1450000000 + 1000 * k
        with open(os.path.join(d, '%d-010.0.0.1-%05d-010.0.0.2-00080-0' % (t, k)), 'wb') as f:
            f.write(b'GET / HTTP/1.1\\r\\nHost: a\\r\\n\\r\\n' * 2)
        with open(os.path.join(d, '%d-010.0.0.2-00080-010.0.0.1-%05d-0' % (t, k)), 'wb') as f:
            f.write(b'HTTP/1.1 204 No Content\\r\\n\\r\\n' * 2)
    it = iter(tcpflow_input([d]))
    next(it)
    n = 0
    for fd in os.listdir('/proc/self/fd'):
        try:
            n += os.readlink('/proc/self/fd/' + fd).startswith(os.path.realpath(d) + '/')
        except OSError:
            pass
    assert n < 10, n
    list(it)
'''),
 dict(id='c27-failures-kept', property='C27',
      needs='many distinct malformed values',
      breaks='every malformed value is remembered forever',
      edits=[('parse.py', '''            complaint = (fail_notice_id, {'error': e})
            parse_result = (Unavailable(data), [complaint], [])
''', '''            complaint = (fail_notice_id, {'error': e})
            parse_result = (Unavailable(data), [complaint], [])
            _failed[key + (fail_notice_id,)] = parse_result
'''), ('parse.py', '''    parse_result = _memo.pop(key, None)
    if parse_result is not None:
        _memo[key] = parse_result       # Reinsertion maintains LRU order.
''', '''    parse_result = _failed.get(key + (fail_notice_id,))
    if parse_result is None:
        parse_result = _memo.pop(key, None)
    if parse_result is not None and parse_result[2]:
        _memo[key] = parse_result       # Reinsertion maintains LRU order.
    elif parse_result is not None:
        pass
'''), ('parse.py', '_memo = OrderedDict()\n', '_memo = OrderedDict()\n_failed = {}\n')],
      demo=PRE + '''
import gc, sys
def go(lo, hi):
    for k in range(lo, hi):
        check(None, Response('HTTP/1.1', 200, 'OK', [('Age', 'x%d' % k)], b''))
    for k in range(600):
        check(None, Response('HTTP/1.1', 200, 'OK', [('Age', '%d' % k)], b''))
    gc.collect()
    return sys.getallocatedblocks()
go(0, 1000)
a = go(1000, 2000)
b = go(2000, 3000)
assert b - a < 2000, b - a
'''),
 dict(id='c27-text-buffered', property='C27',
      needs='a text report of more than one exchange',
      breaks='the text report is held in memory and written at the end',
      edits=[('reports/text.py', "    f1 = codecs.getwriter('utf-8')(buf)\n    for exch in exchanges:",
              "    f1 = io.StringIO()\n    for exch in exchanges:"),
             ('reports/text.py', "            for complaint in exch.complaints:\n                _write_complaint_line(complaint, f2)\n",
              "            for complaint in exch.complaints:\n                _write_complaint_line(complaint, f2)\n    codecs.getwriter('utf-8')(buf).write(f1.getvalue())\n"),
             ('reports/text.py', "from functools import singledispatch\n", "from functools import singledispatch\nimport io\n")],
      demo=PRE + '''
b = io.BytesIO()
def gen():
    yield check(None, Response('HTTP/1.1', 200, 'OK', [('Age', 'x')], b''))
    assert b.getvalue()
    yield check(None, Response('HTTP/1.1', 200, 'OK', [('Age', 'x')], b''))
text_report(gen(), b)
'''),
 dict(id='c28-inner-http', property='C28',
      needs='a header whose name contains HTTP- further on',
      breaks='HTTP_ is removed from the middle of names, too',
      edits=[('helpers.py', "        cgi_name = cgi_name[len(prefix):]", "        cgi_name = cgi_name.replace(prefix, '')")],
      demo=PRE + '''
assert helpers.headers_from_cgi({'HTTP_X_HTTP_METHOD': 'PUT'})[0][0] == 'X-Http-Method'
'''),
 dict(id='c28-repeated-pseudo', property='C28',
      needs='a pseudo-header that occurs twice',
      breaks='the second of two pseudo-headers with the same name stays in the list',
      edits=[('helpers.py', "        if name.startswith(u':'):\n", "        if name.startswith(u':') and name not in r:\n")],
      demo=PRE + '''
l = [(':path', b'/'), ('a', b'b'), (':path', b'/')]
helpers.pop_pseudo_headers(l)
assert l == [('a', b'b')], l
'''),
 dict(id='c29-webdav-safe', property='C29',
      needs='REPORT (RFC 3253), which is safe, where safety matters',
      breaks='REPORT is taken to be unsafe',
      edits=[('known/__init__.py', "        return self.get(key).get('safe')", "        return self.get(key).get('safe') and self.get(key).get('defines_body') is not True")],
      demo=PRE + '''
from httpolice import known
assert known.method.is_safe(known.m.GET) and known.method.is_safe(known.m.REPORT) and known.method.is_safe(known.m.PROPFIND) 
'''),
]
