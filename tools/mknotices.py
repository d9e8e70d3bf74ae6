"""Writes vp/ref/notices.json: number -> severity, title, explanation.

A reviewed snapshot of the documented notices (httpolice/notices.xml is also
what the published list of notices is made from): placeholders are kept by
name, everything else is the literal text that a user sees.
"""

import json
import os
import sys

import lxml.etree

repo = sys.argv[1] if len(sys.argv) > 1 else '/repo'
root = lxml.etree.parse(os.path.join(repo, 'httpolice', 'notices.xml')).getroot()

def pieces(elem):
    """Literal texts and [placeholder]s."""
    parts = [elem.text or '']
    for kid in elem:
        if kid.tag == 'var':
            parts.append([kid.get('ref')])
        elif kid.tag in ('rfc', 'cite'):
            parts += cite(kid)
        elif isinstance(kid.tag, str) and kid.tag != 'ref':
            assert len(kid) == 0
            parts.append(kid.text)
        parts.append(kid.tail or '')
    return join(parts)


def cite(elem):
    if elem.tag == 'rfc':
        title = 'RFC %s' % elem.get('num')
        if elem.get('errata'):
            title += ' errata'
        elif elem.get('sect'):
            title += ' \xa7 %s' % elem.get('sect')
        elif elem.get('appendix'):
            title += ' appendix %s' % elem.get('appendix')
    else:
        title = elem.get('title')
    quote = pieces(elem)
    if any(p != '' and (not isinstance(p, str) or p.strip()) for p in quote):
        return [title, ': '] + quote
    return [title]


def join(parts):
    r = []
    for p in parts:
        if isinstance(p, str) and r and isinstance(r[-1], str):
            r[-1] += p
        elif p != '':
            r.append(p)
    return [' '.join(('|%s|' % p).split())[1:-1] if isinstance(p, str) else p
            for p in r]


out = {}
for n in root:
    if n.tag not in ('error', 'comment', 'debug'):
        continue
    text = []
    for kid in n:
        if kid.tag == 'explain':
            text.append(pieces(kid))
        elif kid.tag in ('rfc', 'cite'):
            text.append(join(cite(kid)))
        elif kid.tag == 'exception':
            text.append('exception')
        else:
            assert kid.tag in ('title', 'ref') or not isinstance(kid.tag, str)
    out[n.get('id')] = {'severity': n.tag, 'title': pieces(n.find('title')),
                        'text': text,
                        'refs': [r.get('to') for r in n.findall('ref')]}
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'vp', 'ref',
                    'notices.json')
with open(path, 'w') as f:
    f.write('{\n' + ',\n'.join('%s: %s' % (json.dumps(k), json.dumps(v))
                               for k, v in sorted(out.items())) + '\n}\n')
