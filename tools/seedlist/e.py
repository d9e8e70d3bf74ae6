from tools.seedlist.a import PRE

HOST = "('Host', 'a.example'), ('User-Agent', 'x')"

SEEDS = [
 dict(id='c14-last-okay', property='C14',
      needs='a single-valued header repeated, with the last value malformed and an earlier one well-formed',
      breaks='an earlier value is used instead of the last one',
      edits=[('header.py', """            self._value = values[-1]
            self._entries = [entries[-1]]
""", """            best = max(i for i, v in enumerate(values)
                       if okay(v) or not any(okay(w) for w in values))
            self._value = values[best]
            self._entries = [entries[best]]
""")],
      demo=PRE + '''
q = lambda *dates: check(
    Request('http', 'GET', '/', 'HTTP/1.1', [%s], b''),
    Response('HTTP/1.1', 200, 'OK', [('Content-Type', 'text/plain')] + [('Date', d) for d in dates], b'abc'))
future = 'Fri, 01 Jan 2100 00:00:00 GMT'
assert 1109 in ids(q(future).responses[0])
assert 1109 not in ids(q(future, 'tomorrow').responses[0])
''' % HOST),
 dict(id='c22-local-time', property='C22',
      needs='a Date within some hours of the present, in a process whose time zone is not UTC',
      breaks='whether a Date is reported as in the future depends on the time zone',
      edits=[('message.py', "    if headers.date > datetime.utcnow() + timedelta(seconds=10):",
              "    if headers.date > datetime.now() + timedelta(seconds=10):")],
      demo=PRE + '''
import os, time, datetime
def r(tz):
    os.environ['TZ'] = tz
    time.tzset()
    d = (datetime.datetime.utcnow() - datetime.timedelta(hours=1)).strftime('%%a, %%d %%b %%Y %%H:%%M:%%S GMT')
    return ids(check(Request('http', 'GET', '/', 'HTTP/1.1', [%s, ('Date', d)], b'')).request)
assert r('UTC') == r('America/New_York') == r('EST5') == r('JST-9'), (r('UTC'), r('EST5'))
''' % HOST),
 dict(id='c22-text-encoding', property='C22',
      needs='a header value given as characters that are not ASCII',
      breaks='the value is taken as UTF-8 when given as characters but as ISO-8859-1 when given as bytes',
      edits=[('structure.py', """                                               force_bytes(value))""",
              """                                               force_bytes(value, 'utf-8'))""")],
      demo=PRE + '''
def r(v):
    return ids(check(Request('http', 'GET', '/', 'HTTP/1.1', [%s, ('Authorization', v)], b'')).request)
v = 'Foo x="caf\\xe9"'
a = Request('http', 'GET', '/', 'HTTP/1.1', [('X', v)], b'').header_entries
b = Request('http', 'GET', '/', 'HTTP/1.1', [('X', v.encode('iso-8859-1'))], b'').header_entries
assert a == b, (a, b)
''' % HOST),
 dict(id='c22-upgrade-case', property='C22',
      needs='a Connection: Upgrade option spelled with a capital together with an Upgrade header',
      breaks='connection options are compared with regard to case',
      edits=[('message.py', "    if headers.upgrade.is_present and u'upgrade' not in headers.connection:",
              "    if headers.upgrade.is_present and \\\n            u'upgrade' not in [str(o) for o in headers.connection] and \\\n            u'Upgrade' not in [str(o) for o in headers.connection]:")],
      demo=PRE + '''
def r(v):
    return ids(check(Request('http', 'GET', '/', 'HTTP/1.1', [%s, ('Upgrade', 'foo'), ('Connection', v)], b'')).request)
assert r('upgrade') == r('UPGRADE') == r('Upgrade'), r('UPGRADE')
''' % HOST),
 dict(id='c23-created-here', property='C23',
      needs='a PUT answered by 201 with a Location that names the same resource',
      breaks='201 to PUT with a Location equal to the request URI is reported as an error (1085)',
      edits=[('response.py', """            if status in [st.moved_permanently, st.found, st.see_other] and \\
                    method != m.POST:""",
              """            if status in [st.created, st.moved_permanently, st.found,
                          st.see_other] and method != m.POST:""")],
      demo=PRE + '''
e = check(Request('http', 'PUT', '/x', 'HTTP/1.1', [%s, ('Content-Type', 'text/plain'), ('Content-Length', '1')], b'a'),
          Response('HTTP/1.1', 201, 'Created', [('Location', '/x'), ('Content-Length', '0')], b''))
assert 1085 not in ids(e.responses[0]), ids(e.responses[0])
''' % HOST),
 dict(id='c23-written-tag', property='C23',
      needs='a PUT with If-None-Match: * (create only), answered by success with the new ETag',
      breaks='the answer is reported as an error (1121) because the new representation has a tag',
      edits=[('response.py', """    if method in [m.GET, m.HEAD] and status.successful:
        if resp.headers.etag.is_okay:""",
              """    if method in [m.GET, m.HEAD, m.PUT] and status.successful:
        if resp.headers.etag.is_okay:""")],
      demo=PRE + '''
e = check(Request('http', 'PUT', '/x', 'HTTP/1.1', [%s, ('Content-Type', 'text/plain'), ('Content-Length', '1'), ('If-None-Match', '"a"')], b'a'),
          Response('HTTP/1.1', 200, 'OK', [('ETag', '"a"'), ('Content-Length', '0')], b''))
assert 1121 not in ids(e.responses[0]), ids(e.responses[0])
''' % HOST),
]
