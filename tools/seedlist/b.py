import sys
sys.path.insert(0, '/verif')
from tools.seedlist.a import PRE  # noqa: E402
SEEDS = [
 dict(id='c05-alt-svc-memo', property='C05',
      needs='the same Alt-Svc value with a known parameter twice in one process',
      breaks='the memoised parse result is changed in place by the Alt-Svc view',
      edits=[('header.py', 'parsed = copy.deepcopy(parsed)', 'parsed = copy.copy(parsed)')],
      demo=PRE + '''
def one():
    e = check(None, Response('HTTP/1.1', 200, 'OK', [('Alt-Svc', 'h2=":443"; ma=60')], b''))
    return ids(e.responses[0])
a = one()
try:
    b = one()
except Exception as e:
    b = repr(e)
assert a == b, (a, b)
'''),
 dict(id='c25-codings-used-up', property='C25',
      needs='a compressed body and a second look at the message (rendering, or checking again)',
      breaks='undoing content codings empties the parsed Content-Encoding header',
      edits=[('message.py', 'codings = self.headers.content_encoding.value[:]', 'codings = self.headers.content_encoding.value')],
      demo=PRE + '''
import gzip
e = check(None, Response('HTTP/1.1', 200, 'OK', [('Content-Encoding', 'gzip'), ('Content-Type', 'text/plain')], gzip.compress(b'x')))
b = io.BytesIO(); html_report([e], b)
assert b'removing Content-Encoding' in b.getvalue()
'''),
 dict(id='c05-shared-annotations', property='C05',
      needs='a message with a header that is not parsed, at an index where an earlier message had one that was',
      breaks='values of an earlier message are shown in the preview of a later one',
      edits=[('message.py', "        self.annotations = {}\n", ""),
             ('message.py', "    self_name = u'msg'\n", "    self_name = u'msg'\n    annotations = {}\n")],
      demo=PRE + '''
check(None, Response('HTTP/1.1', 200, 'OK', [('Allow', 'PUT')], b'x'))
e = check(None, Response('HTTP/1.1', 200, 'OK', [('Foo', 'bar')], b'x'))
b = io.BytesIO(); html_report([e], b)
assert b'PUT' not in b.getvalue() and b'bar' in b.getvalue()
'''),
 dict(id='c03-box-not-counted', property='C03',
      needs='the only severe notice is one that belongs to no message',
      breaks='framing errors do not make the exit status 1',
      edits=[('cli.py', 'for obj in [exch] + exch.children\n', 'for obj in exch.children\n')],
      demo=PRE + '''
import subprocess, sys
with tempfile.TemporaryDirectory() as d:
    for n, b in [('in', b'\\x00\\r\\n'), ('out', b'')]:
        open(os.path.join(d, n), 'wb').write(b)
    r = subprocess.run([sys.executable, '-m', 'httpolice.cli', '--fail-on=error', '-i', 'streams', os.path.join(d, 'in'), os.path.join(d, 'out')], stdout=subprocess.PIPE)
assert b'E 10' in r.stdout and r.returncode == 1, r
'''),
 dict(id='c04-interim-resp', property='C04',
      needs='HTTPolice-Silence with resp in a request that has an interim response',
      breaks='the header does not apply to interim responses',
      edits=[('response.py', '                 if in_resp)', '                 if in_resp and not resp.status.informational)')],
      demo=PRE + '''
def go(n):
    e = check(Request('http', 'GET', '/', 'HTTP/1.1', [('Host', 'a'), ('HTTPolice-Silence', '%d resp' % n)], b''),
          Response('HTTP/1.1', 103, 'x', [('Content-Length', '0'), ('Age', 'x')], b''), Response('HTTP/1.1', 200, 'OK', [], b'x'))
    return ids(e.responses[0])
for n in go(9999):
    assert n not in go(n), n
assert go(9999)
'''),
 dict(id='c12-ipv4-octet', property='C12',
      needs='an IPv4 address with 250 (say) as an IPv6 tail, in a zone or a forwarded node',
      breaks='IPv6 addresses with fully compressed middle of four groups are rejected',
      edits=[('syntax/rfc3986.py', "maybe_str(string_times(0, 4, h16 + ':') + h16) + '::' + ls32",
              "maybe_str(string_times(0, 3, h16 + ':') + h16) + '::' + ls32")],
      demo=PRE + '''
e = check(Request('http', 'GET', '/', 'HTTP/1.1', [('Host', '[1:2:3:4:5::1.2.3.4]'), ('User-Agent', 'x')], b''))
assert 1000 not in ids(e.request)
'''),
 dict(id='c13-eof-expected', property='C13',
      needs='a value that fails after a prefix which would be a complete value',
      breaks='the end of data is not listed among what was expected',
      edits=[('parse.py', "        if symbol is target_symbol and next_symbol is None:\n            # This",
              "        if symbol is target_symbol and next_symbol is None and found == b'':\n            # This")],
      demo=PRE + '''
e = check(None, Response('HTTP/1.1', 200, 'OK', [('Age', '12x')], b''))
b = io.BytesIO(); html_report([e], b)
assert b'end of data' in b.getvalue()
'''),
 dict(id='c24-response-marker', property='C24',
      needs='a response with no reason and an unregistered status, or a request and several responses',
      breaks='a response without notices of its own hides the marker of the next',
      edits=[('reports/text.py', """            for resp in exch.responses:
                with write_if_any(_response_marker(resp), f2) as f3:
                    for complaint in resp.complaints:
""", """            for resp in exch.responses:
                with write_if_any(_response_marker(exch.responses[-1]), f2) as f3:
                    for complaint in resp.complaints:
""")],
      demo=PRE + '''
e = check(None, Response('HTTP/1.1', 100, 'Continue', [('Content-Length', '0')], b''),
          Response('HTTP/1.1', 200, 'OK', [], b'x'))
b = io.BytesIO(); text_report([e], b)
assert b'response: 100 Continue' in b.getvalue(), b.getvalue()
'''),
 dict(id='c25-trailer-annotations', property='C25',
      needs='a trailer entry whose value holds a known element, at an index where the header has another entry',
      breaks='trailer values are shown with the contents of a header line',
      edits=[('message.py', 'self.annotations.get((True, i), [entry.value])', 'self.annotations.get((not self.annotations, i), [entry.value])')],
      demo=PRE + '''
e = check(None, Response('HTTP/1.1', 200, 'OK', [('Allow', 'GET')], b'x', [('Link', '</yyy>; rel=next')]))
b = io.BytesIO(); html_report([e], b)
assert b'yyy' in b.getvalue()
'''),
]
SEEDS = [s for s in SEEDS if s['edits']]
