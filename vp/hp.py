"""Talking to HTTPolice through its public API.

Exchanges are described by plain data ("specs"), so that they can be compared,
transformed, written to replay files, and rebuilt from scratch:

  spec = {'req': req or None, 'resps': [resp, ...]}
  req  = {'scheme', 'method', 'target', 'version', 'headers', 'body',
          'trailers'}
  resp = {'version', 'status', 'reason', 'headers', 'body', 'trailers'}

`headers` and `trailers` are lists of (str name, bytes value); `body` is bytes
or None (unknown).
"""

import io
import os
import types

import httpolice
from httpolice import cli, helpers, inputs        # noqa: F401

assert os.path.abspath(httpolice.__file__).startswith(
    os.path.abspath(os.environ.get('VP_REPO', '/repo')) + os.sep), \
    httpolice.__file__

Severity = httpolice.Severity


def req_of(spec):
    r = spec['req']
    if r is None:
        return None
    return httpolice.Request(r.get('scheme', 'http'), r['method'], r['target'],
                             r['version'], list(r['headers']), r['body'],
                             list(r['trailers']) if r.get('trailers')
                             else None, remark=r.get('remark'))


def resp_of(r):
    return httpolice.Response(r['version'], r['status'], r['reason'],
                              list(r['headers']), r['body'],
                              list(r['trailers']) if r.get('trailers')
                              else None, remark=r.get('remark'))


def build(spec):
    return httpolice.Exchange(req_of(spec), [resp_of(r)
                                             for r in spec['resps']])


def check(spec):
    exch = build(spec)
    httpolice.check_exchange(exch)
    return exch


def ids(obj):
    """Multiset of notice IDs on one object, as a sorted list."""
    return sorted(n.id for n in obj.notices)


def all_ids(exch):
    """(exchange, request, [responses]) notice IDs."""
    return (ids(exch), ids(exch.request) if exch.request is not None else None,
            [ids(r) for r in exch.responses])


def flat_ids(exch):
    e, q, rs = all_ids(exch)
    r = list(e) + list(q or [])
    for x in rs:
        r += x
    return sorted(r)


def report(kind, exchanges):
    buf = io.BytesIO()
    {'text': httpolice.text_report,
     'html': httpolice.html_report}[kind](exchanges, buf)
    return buf.getvalue()


class Stdio(io.StringIO):

    def __init__(self):
        super().__init__()
        self.buffer = io.BytesIO()


def run_cli(argv):
    """(exit status, stdout bytes, stderr text)"""
    out, err = Stdio(), Stdio()
    args = cli.parse_args(['httpolice'] + argv)
    status = cli.run_cli(args, out, err)
    return types.SimpleNamespace(status=status, out=out.buffer.getvalue(),
                                 err=err.getvalue())


def req(method='GET', target='/', headers=(), body=b'', version='HTTP/1.1',
        scheme='http', trailers=None, **kw):
    return dict(scheme=scheme, method=method, target=target, version=version,
                headers=list(headers), body=body, trailers=trailers, **kw)


def resp(status=200, headers=(), body=b'', version='HTTP/1.1', reason='OK',
         trailers=None, **kw):
    return dict(version=version, status=status, reason=reason,
                headers=list(headers), body=body, trailers=trailers, **kw)
