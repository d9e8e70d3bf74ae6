"""Makes vp/ref/cites.json: the titles and documents of protocol elements.

Run once; the result was reviewed (see DESIGN.md).  Not run by the checks.
"""
import csv
import glob
import json
import os

out = {}
for f in sorted(glob.glob('/repo/httpolice/known/*.csv')):
    kind = os.path.basename(f)[:-4]
    t = out[kind] = {}
    for r in csv.DictReader(open(f)):
        cite = url = None
        if r['rfc']:
            cite = 'RFC\xa0' + r['rfc']
            url = 'https://tools.ietf.org/html/rfc' + r['rfc']
            if r['rfc_section']:
                cite += ' \xa7\xa0' + r['rfc_section']
                url += '#section-' + r['rfc_section']
            elif r['rfc_appendix']:
                cite += ' appendix\xa0' + r['rfc_appendix']
                url += '#appendix-' + r['rfc_appendix']
        elif r['cite_url']:
            cite, url = r['cite_title'] or None, r['cite_url']
        t[r['key']] = [r['title'] or None, cite, url]
json.dump(out, open('/verif/vp/ref/cites.json', 'w'), indent=0,
          sort_keys=True)
