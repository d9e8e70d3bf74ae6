"""C23: correct traffic gets no error notices."""

import json
import os

from vp import conform, hp, wire

PID = 'C23'
RULE = ('Exchanges that follow the standards by construction (vp/conform.py: '
        'some 45 scenarios for statuses, conditional requests, ranges, '
        'caching, authentication, redirection, upgrades, tunnels, proxies, '
        'WebDAV, preferences, interim responses; on top of them, any '
        'combination of independent features; spelled in many legal ways) '
        'are checked as objects, as whole connections in byte streams, and as '
        'HAR files. No notice of severity "error" may be reported on any '
        'message or exchange, and streams must be read back whole. '
        'Non-trivial: a combination of scenario, method, status, version and '
        'body that was not seen before.')
ASSUMPTIONS = ['vp/conform.py follows the standards']


def plan(tier):
    k = 1 if tier == 'quick' else 15
    return [('api', 20000 * k, 500), ('streams', 2500 * k, 100),
            ('har', 2500 * k, 100)]


def REQUIRE(tier):
    r = {'messages': 50000, 'headers': 150000, 'streams': 1500,
         'read from HAR': 2000, 'HTTP/1.1': 5000, 'HTTP/1.0': 1000,
         'HTTP/2': 1000, 'trailers': 500, 'chunked': 2000}
    for f in conform.SCENARIOS:
        r[f.__name__] = 100
    return r


def errors(rec, exch):
    found = []
    for x in [exch] + ([exch.request] if exch.request else []) + \
            list(exch.responses):
        for n in x.notices:
            rec.count('notices')
            if n.severity == hp.Severity.error:
                found.append(n.id)
    return sorted(set(found))


def note(rec, spec):
    for t in spec['tags']:
        rec.count(t)
    for m in [spec['req']] + spec['resps']:
        rec.count('messages')
        rec.count('headers', len(m['headers']))
    rec.nontrivial(tuple(spec['tags']))
    rec.sample(spec)


def case(shard, i, rng, rec):
    if shard == 'api':
        spec = conform.exchange(rng)
        note(rec, spec)
        for n in errors(rec, hp.check(spec)):
            rec.fail('error %d' % n, 'error notice %d' % n, spec)
    elif shard == 'streams':
        streams(rng, rec)
    else:
        har(rng, rec)


def streams(rng, rec):
    tls = rng.random() < .5
    specs = []
    n = rng.choice([1, 1, 2, 5, 12])
    while len(specs) < n:
        s = conform.exchange(rng)
        if s['req']['version'] == 'HTTP/2' or s['tls'] != tls:
            continue
        specs.append(s)
        if s['closes'] or s['resps'][-1]['status'] == 101 or \
                s['req']['method'] == 'CONNECT' or \
                s['req']['version'] == 'HTTP/1.0':
            break
    inb, outb = conform.stream(rng, specs)
    data = {'inbound': inb, 'outbound': outb, 'exchanges': specs}
    # Only the names of combined files tell the scheme.
    how = 'combined' if tls else rng.choice(['streams', 'combined'])
    if specs[-1]['resps'][-1]['status'] == 101 or \
            specs[-1]['req']['method'] == 'CONNECT' and \
            specs[-1]['resps'][-1]['status'] < 300:
        outb += b'\x00\x01garbage that is not HTTP'
        inb += b'PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n'
    scheme = 'https' if tls else 'http'
    with wire.Tmp() as tmp:
        if how == 'combined':
            es = list(hp.inputs.formats['combined']([tmp.put(
                'c.' + ('https' if tls else 'x'),
                wire.COMBINED_IN + inb + wire.COMBINED_OUT + outb)]))
        else:
            es = list(hp.inputs.formats['streams']([
                tmp.put('in', inb), tmp.put('out', outb)]))
    rec.count('streams')
    for e in es:
        hp.httpolice.check_exchange(e)
        for n in errors(rec, e):
            rec.fail('error %d' % n, 'error notice %d when read from %s' % (
                n, how), data)
    real = [e for e in es if e.request is not None or e.responses]
    if len(real) != len(specs):
        rec.fail('lost', '%d exchanges read, not %d' % (len(real), len(specs)),
                 data)
        return
    for e, s in zip(real, specs):
        note(rec, s)
        if (e.request.method, [p.status for p in e.responses],
                [p.body for p in e.responses], e.request.scheme) != (
                s['req']['method'], [p['status'] for p in s['resps']],
                [p['body'] for p in s['resps']], scheme):
            rec.fail('different', 'not the exchange that was sent', data)


def har(rng, rec):
    specs = [conform.exchange(rng) for _ in range(rng.choice([1, 2, 5]))]
    specs = [s for s in specs if len(s['resps']) == 1 and
             s['req']['method'] != 'CONNECT' and s['req']['target'] != '*' and
             'via_proxy' not in s['tags']]
    entries = [har_entry(rng, s) for s in specs]
    log = {'log': {'version': '1.2', 'creator': {
        'name': rng.choice(['demo', 'Firefox', 'WebInspector', 'Fiddler']),
        'version': '1.0'}, 'entries': entries}}
    with wire.Tmp() as tmp:
        path = tmp.put('x.har', json.dumps(log).encode())
        es = list(hp.inputs.formats['har']([path]))
    if len(es) != len(specs):
        rec.fail('lost', '%d exchanges read, not %d' % (len(es), len(specs)),
                 log)
        return
    for e, s in zip(es, specs):
        note(rec, s)
        rec.count('read from HAR')
        hp.httpolice.check_exchange(e)
        for n in errors(rec, e):
            rec.fail('error %d' % n, 'error notice %d when read from HAR' % n,
                     {'har': log, 'exchange': s})


def har_entry(rng, s):
    q, p = s['req'], s['resps'][0]

    def headers(m):
        return [{'name': k, 'value': v.decode('latin-1')}
                for k, v in m['headers'] + m['trailers']]
    host = [v for k, v in q['headers'] if k.lower() == 'host']
    version = 'HTTP/2.0' if q['version'] == 'HTTP/2' else q['version']
    rversion = 'HTTP/2.0' if p['version'] == 'HTTP/2' else p['version']
    hq = {'method': q['method'],
          'url': '%s://%s%s' % ('https' if s['tls'] else 'http',
                                host[0].decode() if host else 'example.com',
                                q['target']),
          'httpVersion': version, 'cookies': [], 'queryString': [],
          'headers': headers(q), 'headersSize': -1, 'bodySize': len(q['body'])}
    plain, rplain = s['payloads']
    ct = [v for k, v in q['headers'] if k.lower() == 'content-type']
    if q['body']:
        hq['postData'] = {'mimeType': ct[0].decode('latin-1') if ct else '',
                          'params': [],
                          'text': (plain or q['body']).decode('utf-8',
                                                              'replace')}
    content = {'size': len(p['body']), 'mimeType': ''}
    ct = [v for k, v in p['headers'] if k.lower() == 'content-type']
    if ct:
        content['mimeType'] = ct[0].decode('latin-1')
    coded = any(k.lower() == 'content-encoding' for k, _ in p['headers'])
    if p['body'] and not (coded and rplain is None):
        import base64
        content['text'] = base64.b64encode(rplain or p['body']).decode()
        content['encoding'] = 'base64'
    hp_ = {'status': p['status'], 'statusText': p['reason'] or '',
           'httpVersion': rversion, 'cookies': [], 'headers': headers(p),
           'content': content, 'redirectURL': '', 'headersSize': -1,
           'bodySize': len(p['body'])}
    return {'startedDateTime': '2016-01-01T00:00:00.000Z', 'time': 1,
            'request': hq, 'response': hp_, 'cache': {},
            'timings': {'send': 1, 'wait': 1, 'receive': 1}}
