PRE = '''
import io, os, tempfile
from httpolice import *
from httpolice.inputs.streams import streams_input

def ids(o):
    return [n.id for n in o.notices]

def check(req, *resps):
    e = Exchange(req, list(resps))
    check_exchange(e)
    return e

def streams(inb, outb):
    with tempfile.TemporaryDirectory() as d:
        for name, data in [('in', inb), ('out', outb)]:
            with open(os.path.join(d, name), 'wb') as f:
                f.write(data)
        return list(streams_input([os.path.join(d, 'in'), os.path.join(d, 'out')]))
'''

SEEDS = [
 dict(id='c06-head-chunked', property='C06',
      needs='a response to HEAD that carries Transfer-Encoding, with something after it',
      breaks='the response to HEAD is taken to have a chunked body',
      edits=[('framing1.py', '''(req and req.method == m.HEAD)):
        resp.body = b\'\'''', '''(req and req.method == m.HEAD and
               not resp.headers.transfer_encoding)):
        resp.body = b\'\'''')],
      demo=PRE + '''
es = streams(b'HEAD / HTTP/1.1\\r\\nHost: a\\r\\n\\r\\nGET / HTTP/1.1\\r\\nHost: a\\r\\n\\r\\n',
             b'HTTP/1.1 200 OK\\r\\nTransfer-Encoding: chunked\\r\\n\\r\\n'
             b'HTTP/1.1 204 No Content\\r\\n\\r\\n')
assert len(es) == 2 and [r.status for e in es for r in e.responses] == [200, 204], es
'''),
 dict(id='c06-te-order', property='C06',
      needs='two different compression codings in one Transfer-Encoding of a request',
      breaks='codings are undone in the wrong order',
      edits=[('framing1.py', '_decode_transfer_coding(req, codings.pop())',
              '_decode_transfer_coding(req, codings.pop(0))')],
      demo=PRE + '''
import gzip, zlib
b = gzip.compress(zlib.compress(b'hello'))
es = streams(b'POST / HTTP/1.1\\r\\nHost: a\\r\\nTransfer-Encoding: deflate, gzip, chunked\\r\\n\\r\\n'
             + b'%x\\r\\n' % len(b) + b + b'\\r\\n0\\r\\n\\r\\n', b'')
assert es[0].request.body == b'hello', es[0].request.body
'''),
 dict(id='c07-lone-cr', property='C07',
      needs='a line that is only CR LF LF or starts with a bare CR inside a header block',
      breaks='a header block is ended by a bare CR instead of an empty line',
      edits=[('stream.py', '''        if self.readline(decode=False) != b'':
''', '''        if self.readline(decode=False).strip() != b'':
''')],
      demo=PRE + '''
es = streams(b'GET / HTTP/1.1\\r\\nHost: a\\r\\n\\r\\r\\n', b'')
assert [e.request for e in es if e.request] == [], es
'''),
 dict(id='c02-preamble', property='C02',
      needs='a combined file whose preamble is not UTF-8',
      breaks='the tool ends with a traceback',
      edits=[('inputs/streams.py', 'except UnicodeError as exc:     # pragma: no cover',
              'except UnicodeEncodeError as exc:     # pragma: no cover')],
      demo=PRE + '''
from httpolice.inputs import combined_input, InputError
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'f')
    with open(p, 'wb') as f:
        f.write(b'\\xff\\r\\n======== BEGIN INBOUND STREAM ========\\r\\n'
                b'======== BEGIN OUTBOUND STREAM ========\\r\\n')
    try:
        list(combined_input([p]))
    except InputError:
        pass
    except Exception as e:
        assert False, repr(e)
'''),
 dict(id='c01-age-overflow', property='C01',
      needs='an Age above 86399999999999 together with Date and Expires and no max-age',
      breaks='checking raises OverflowError',
      edits=[('response.py', '''                if self.headers.age > delta.total_seconds():
''', '''                if self.headers.age.is_okay and \\
                        timedelta(seconds=self.headers.age.value) > delta:
''')],
      demo=PRE + '''
r = Response('HTTP/1.1', 200, 'OK', [
    ('Date', 'Thu, 01 Jan 2015 00:00:00 GMT'), ('Expires', 'Fri, 02 Jan 2015 00:00:00 GMT'),
    ('Age', '99999999999999999')], b'')
try:
    check(Request('http', 'GET', '/', 'HTTP/1.1', [('Host', 'a')], b''), r)
except OverflowError as e:
    assert False, e
'''),
 dict(id='c15-http10-1021', property='C15',
      needs='an HTTP/1.0 POST without any length',
      breaks='notice 1021 is not reported',
      edits=[('request.py', 'if (version in [http10, http11] and known.method.defines_body(method)',
              'if (version == http11 and known.method.defines_body(method)')],
      demo=PRE + '''
e = check(Request('http', 'POST', '/', 'HTTP/1.0', [], b''))
assert 1021 in ids(e.request), ids(e.request)
'''),
 dict(id='c15-connection-first', property='C15',
      needs='a forbidden connection option that is not the first one',
      breaks='notice 1034 is only reported for the first option',
      edits=[('message.py', '''            complain(1034, header=headers[FieldName(opt)])
''', '''            complain(1034, header=headers[FieldName(opt)])
        break
''')],
      demo=PRE + '''
e = check(Request('http', 'GET', '/', 'HTTP/1.1', [('Host', 'a'), ('Connection', 'close, Cache-Control')], b''))
assert 1034 in ids(e.request), ids(e.request)
'''),
 dict(id='c16-safe-methods', property='C16',
      needs='a safe method other than GET, HEAD and OPTIONS (PROPFIND, REPORT...)',
      breaks='1072, 1074 and 1095 are not reported for it',
      edits=[('response.py', '''    if known.method.is_safe(method):
        if status == st.created''', '''    if method in [m.GET, m.HEAD, m.OPTIONS]:
        if status == st.created''')],
      demo=PRE + '''
e = check(Request('http', 'PROPFIND', '/', 'HTTP/1.1', [('Host', 'a')], b''),
          Response('HTTP/1.1', 201, 'Created', [], b''))
assert 1072 in ids(e.responses[0]), ids(e.responses[0])
'''),
 dict(id='c17-head-1121', property='C17',
      needs='a HEAD request with If-None-Match whose tag the 2xx response carries',
      breaks='1121 is not reported for HEAD',
      edits=[('response.py', '''    if method in [m.GET, m.HEAD] and status.successful:
        if resp.headers.etag.is_okay:''', '''    if method == m.GET and status.successful:
        if resp.headers.etag.is_okay:''')],
      demo=PRE + '''
e = check(Request('http', 'HEAD', '/', 'HTTP/1.1', [('Host', 'a'), ('If-None-Match', '"x"')], b''),
          Response('HTTP/1.1', 200, 'OK', [('ETag', '"x"')], b''))
assert 1121 in ids(e.responses[0]), ids(e.responses[0])
'''),
 dict(id='c18-disconnected', property='C18',
      needs='a stale response that carries Warning 112',
      breaks='1188 is reported although the warning excuses it',
      edits=[('response.py', '''            warn.disconnected_operation not in resp.headers.warning and \\
''', '')],
      demo=PRE + '''
e = check(Request('http', 'GET', '/', 'HTTP/1.1', [('Host', 'a')], b''),
          Response('HTTP/1.1', 200, 'OK', [('Warning', '110 - "a"'), ('Warning', '112 - "b"'),
                                           ('Age', '5')], b''))
assert 1188 not in ids(e.responses[0]), ids(e.responses[0])
'''),
 dict(id='c19-unknown-tls', property='C19',
      needs='a form with access_token in a request of unknown scheme',
      breaks='1271 is reported though TLS may have been used',
      edits=[('request.py', '''    if okay(req.url_encoded_data) and u'access_token' in req.url_encoded_data:
        if req.is_tls is False:''', '''    if okay(req.url_encoded_data) and u'access_token' in req.url_encoded_data:
        if not req.is_tls:''')],
      demo=PRE + '''
e = check(Request(None, 'POST', '/', 'HTTP/1.1', [('Host', 'a'),
    ('Content-Type', 'application/x-www-form-urlencoded')], b'access_token=x'))
assert 1271 not in ids(e.request), ids(e.request)
'''),
 dict(id='c20-dup-filename', property='C20',
      needs='filename* repeated, before and after filename',
      breaks='1252 judges the order by the last parameter of the name',
      edits=[('structure.py', "        return [k for k, _ in self.sequence].index(name)\n",
              "        return max(i for i, (k, _) in enumerate(self.sequence) if k == name)\n")],
      demo=PRE + '''
e = check(Request('http', 'GET', '/', 'HTTP/1.1', [('Host', 'a')], b''),
          Response('HTTP/1.1', 200, 'OK', [('Content-Disposition',
              "attachment; filename*=UTF-8\'\'a; filename=a; filename*=UTF-8\'\'b")], b''))
assert 1252 in ids(e.responses[0]), ids(e.responses[0])
'''),
 dict(id='c21-unknown-body-413', property='C21',
      needs='a 413 response to a request whose body is unknown',
      breaks='1098 appears when the request body becomes unknown',
      edits=[('response.py', '''    if req.body == b'':
        if status == st.payload_too_large:''', '''    if not req.body:
        if status == st.payload_too_large:''')],
      demo=PRE + '''
e = check(Request('http', 'POST', '/', 'HTTP/1.1', [('Host', 'a')], None),
          Response('HTTP/1.1', 413, 'x', [], b'x'))
assert 1098 not in ids(e.responses[0]), ids(e.responses[0])
'''),
 dict(id='c08-head-pipelined', property='C08',
      needs='HEAD answered by an interim response first',
      breaks='the body of the final response is not judged by the request',
      edits=[('framing1.py', '''            resps.append(resp)
''', '''            resps.append(resp)
            if resp.status.informational:
                req = None
''')],
      demo=PRE + '''
es = streams(b'HEAD / HTTP/1.1\\r\\nHost: a\\r\\n\\r\\nGET / HTTP/1.1\\r\\nHost: a\\r\\n\\r\\n',
             b'HTTP/1.1 100 X\\r\\n\\r\\nHTTP/1.1 200 OK\\r\\nContent-Length: 7\\r\\n\\r\\n'
             b'HTTP/1.1 204 OK\\r\\n\\r\\n')
assert [[r.status for r in e.responses] for e in es] == [[100, 200], [204]], es
'''),
 dict(id='c09-first-response-date', property='C09',
      needs='an exchange whose date is only on its final response, after an interim one',
      breaks='its date is not found, so connections come in the wrong order',
      edits=[('inputs/streams.py', '    for resp in exchange.responses:\n',
              '    for resp in exchange.responses[:1]:\n')],
      demo=PRE + '''
with tempfile.TemporaryDirectory() as d:
    names = []
    for i, t in enumerate(['12', '11']):
        for k in 'io':
            p = os.path.join(d, '%d%s' % (i, k))
            names.append(p)
            with open(p, 'wb') as f:
                f.write((b'GET /%d HTTP/1.1\\r\\nHost: a\\r\\n\\r\\n' % i) * 2 if k == 'i' else
                        (b'HTTP/1.1 100 C\\r\\n\\r\\n' if i == 0 else b'') +
                        (b'HTTP/1.1 204 No\\r\\nDate: Thu, 01 Jan 2015 %s:00:00 GMT\\r\\n\\r\\n'
                         % t.encode()) * 2)
    try:
        es = [e.request.target for e in streams_input(names)]
    except TypeError as e:
        es = repr(e)
assert es == ['/1', '/1', '/0', '/0'], es
'''),
]
