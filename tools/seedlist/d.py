from tools.seedlist.a import PRE
from tools.seedlist.c import HARPRE

HOST = "('Host', 'a.example'), ('User-Agent', 'x')"

SEEDS = [
 dict(id='c26-duped-elsewhere', property='C26',
      needs='Forwarded with a parameter repeated in one element, while another one occurs in several elements',
      breaks='notice 1296 names parameters that are repeated legitimately',
      edits=[('header.py', """            for duped in duplicates(param for (param, _value) in elem):
""", """            if not duplicates(param for (param, _value) in elem):
                continue
            for duped in duplicates(param for e in elements
                                    for (param, _value) in e):
""")],
      demo=PRE + '''
def texts(value):
    e = check(Request('http', 'GET', '/', 'HTTP/1.1', [%s, ('Forwarded', value)], b''))
    b = io.BytesIO(); html_report([e], b)
    t = b.getvalue().decode()
    return sorted(n for n in ids(e.request) if n == 1296)
assert texts('for=a;by=b;by=c, for=d') == [1296], texts('for=a;by=b;by=c, for=d')
''' % HOST),
 dict(id='c26-part-number', property='C26',
      needs='a multipart/byteranges body in which a part other than the first lacks Content-Range after a good one',
      breaks='notice 1141 counts only the bad parts',
      edits=[('response.py', """        for i, part in enumerate(resp.multipart_data.get_payload()):
            if u'Content-Range' not in part:
                resp.complain(1141, part_num=(i + 1))
            if u'Content-Type' not in part:
                resp.complain(1142, part_num=(i + 1))
""", """        parts = resp.multipart_data.get_payload()
        for i, part in enumerate(p for p in parts
                                 if u'Content-Range' not in p):
            resp.complain(1141, part_num=(i + 1))
        for i, part in enumerate(parts):
            if u'Content-Type' not in part:
                resp.complain(1142, part_num=(i + 1))
""")],
      demo=PRE + '''
import re
body = (b'--xyz\\r\\nContent-Type: text/plain\\r\\nContent-Range: bytes 0-0/5\\r\\n\\r\\na\\r\\n'
        b'--xyz\\r\\nContent-Type: text/plain\\r\\n\\r\\nb\\r\\n--xyz--\\r\\n')
e = check(Request('http', 'GET', '/', 'HTTP/1.1', [%s, ('Range', 'bytes=0-0,2-2')], b''),
          Response('HTTP/1.1', 206, 'x', [('Content-Type', 'multipart/byteranges; boundary=xyz')], body))
assert 1141 in ids(e.responses[0])
b = io.BytesIO(); text_report([e], b)
assert re.search(b'1141 Part #?2|1141 .*2', b.getvalue()), b.getvalue()
''' % HOST),
 dict(id='c26-highlight', property='C26',
      needs='an HTML report of an exchange with notice 1097 (what it highlights)',
      breaks='the wrong header is highlighted as the culprit',
      edits=[('notices.xml', """    <explain>The <st>411</st> status code means that the server wants to see a <h ref="no">Content-Length</h> header in the request. But this request did, in fact, include a valid Content-Length of <var ref="msg.request.headers.content_length.value"/>.</explain>
    <ref to="msg.request.headers.content_length"/>""", """    <explain>The <st>411</st> status code means that the server wants to see a <h ref="no">Content-Length</h> header in the request. But this request did, in fact, include a valid Content-Length of <var ref="msg.headers.content_length.value"/>.</explain>
    <ref to="msg.headers.content_length"/>""")],
      demo=PRE + '''
e = check(Request('http', 'POST', '/', 'HTTP/1.1', [%s, ('Content-Length', '3')], b'abc'),
          Response('HTTP/1.1', 411, 'x', [('Content-Length', '12345')], b'x' * 12345))
assert 1097 in ids(e.responses[0])
b = io.BytesIO(); html_report([e], b)
assert b'12345' not in b.getvalue().partition(b'valid Content-Length of')[2][:100]
''' % HOST),
]
