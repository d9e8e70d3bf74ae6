"""Makes vp/ref/registry.json, the frozen table of protocol elements.

Run once; the result was then reviewed against the RFCs (see DESIGN.md).
It is not run by the checks.
"""
import csv, json, sys
sys.path.insert(0, '/verif')
import re
gen = open('/verif/vp/gen.py').read()
ns = {}
exec(gen[gen.index('HEADERS = {'):gen.index('REQUEST_HEADERS')], ns)
RULE = {k: v[0] for k, v in ns['HEADERS'].items()}
K = '/repo/httpolice/known/'
def rows(n):
    return list(csv.DictReader(open(K + n + '.csv')))
def tf(x):
    return {'True': True, 'False': False, 'true': True, 'false': False}.get(x)
reg = {}
hs = {}
for r in rows('header'):
    d = {}
    for f in ('bad_for_connection', 'bad_for_trailer', 'quoted_comma_bad', 'quoted_semicolon_bad', 'for_request',
              'for_response', 'precondition', 'proactive_conneg', 'representation_metadata'):
        v = tf(r[f])
        if v is not None:
            d[f] = v
    if r['iana_status'] in ('deprecated', 'obsoleted'):
        d['deprecated'] = True
    if r['rule']:
        d['kind'] = {'special': 'single' if r['key'] == 'Strict-Transport-Security' else 'multi'}.get(r['rule'], r['rule'])
    if r['syntax_symbol']:
        d['rule'] = RULE[r['key']]
    hs[r['key']] = d
reg['header'] = hs
reg['method'] = {r['key']: {f: tf(r[f]) for f in ('defines_body', 'safe', 'cacheable') if tf(r[f]) is not None} for r in rows('method')}
reg['status_code'] = {r['key']: {'cacheable': r['cacheable']} if r['cacheable'] else {} for r in rows('status_code')}
reg['media_type'] = {r['key']: {f: tf(r[f]) for f in ('deprecated', 'is_json', 'is_xml', 'patch') if f in r and tf(r[f]) is not None} for r in rows('media_type')}
reg['product'] = {r['key']: {'library': True} for r in rows('product') if tf(r.get('library', ''))}
AR = {'delta_seconds': 'delta-seconds', 'no_cache': 'field-name-list', 'private': 'field-name-list', 'max_age_value': 'delta-seconds',
      'handling': 'pref-handling', 'return_': 'pref-return', 'wait': 'delta-seconds', 'ma': 'delta-seconds', 'persist': 'alt-persist',
      'node': 'node', 'Host': 'Host', 'scheme': 'scheme'}
for n in ('cache_directive', 'hsts_directive', 'preference', 'alt_svc_param', 'forwarded_param'):
    t = {}
    for r in rows(n):
        d = {}
        if r['argument']:
            d['argument'] = r['argument']
        if r['syntax_symbol']:
            d['rule'] = AR[r['syntax_symbol']]
        if r.get('argument_form'):
            d['form'] = r['argument_form']
        for f in ('for_request', 'for_response'):
            if f in r and tf(r[f]) is not None:
                d[f] = tf(r[f])
        t[r['key']] = d
    reg[n] = t
json.dump(reg, open('/verif/vp/ref/registry.json', 'w'), indent=1, sort_keys=True)
