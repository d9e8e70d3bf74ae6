#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'C01': 'runtime monitoring: crash/termination monitor over generated exchanges',
 'C02': 'runtime monitoring: outcome monitor on CLI runs over generated and corrupted files',
 'C03': 'runtime monitoring: exit-status oracle over reported notices',
 'C04': 'runtime monitoring: before/after monitor of silenced runs',
 'C05': 'runtime monitoring: history-independence monitor (fresh vs. warmed process, repeated runs)',
 'C06': 'runtime monitoring: sent-vs-reconstructed message log comparison',
 'C07': 'runtime monitoring: reference framing model run alongside the parser',
 'C08': 'runtime monitoring: exactly-once / attribution oracle over uniquely tagged messages',
 'C09': 'runtime monitoring: exactly-once and ordering oracle over uniquely tagged connections',
 'C10': 'runtime monitoring: described-vs-produced message log comparison',
 'C11': 'runtime monitoring: reference decoders and payload validators run alongside',
 'C12': 'runtime monitoring: independent ABNF recogniser as online oracle',
 'C13': 'runtime monitoring: independent prefix-continuation oracle on reported errors',
 'C14': 'runtime monitoring: metamorphic trace comparison of header splits',
 'C15': 'runtime monitoring: independent rule model compared with reported notices',
 'C16': 'runtime monitoring: independent rule model compared with reported notices',
 'C17': 'runtime monitoring: independent rule model compared with reported notices',
 'C18': 'runtime monitoring: independent rule model compared with reported notices',
 'C19': 'runtime monitoring: independent rule model compared with reported notices',
 'C20': 'runtime monitoring: independent rule model compared with reported notices',
 'C21': 'runtime monitoring: monotonicity monitor under removal of knowledge',
 'C22': 'runtime monitoring: metamorphic comparison under meaningless variation',
 'C23': 'runtime monitoring: no-false-error monitor over generated conforming traffic',
 'C24': 'runtime monitoring: report parsed back and compared with recorded notices',
 'C25': 'runtime monitoring: report parsed back and compared with recorded messages',
 'C26': 'runtime monitoring: independent rendering of notice texts compared with reports',
 'C27': 'runtime monitoring: liveness and memory monitors on streamed runs',
 'C28': 'runtime monitoring: conservation oracle over converted headers',
 'C29': 'runtime monitoring: observed behaviour compared with a table of the specifications',
}
NOTE = {
}
DEFAULT_NOTE = ('Held on the generated executions counted in the evidence file; '
                'says nothing about inputs the generators do not produce. '
                'Trusts the reference model in vp/ and the CPython runtime.')
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    if os.path.exists(os.path.join(ROOT, 'vp/checks/%s.py' % pid.lower())):
        checks.append({
            'property': pid,
            'quick_cmd': './run.sh %s quick' % pid,
            'thorough_cmd': './run.sh %s thorough' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': TECH[pid], 'level': 'exploration',
            'level_note': NOTE.get(pid, DEFAULT_NOTE)})
    else:
        na.append({'property': pid, 'reason': 'no check built yet'})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: everything is observed through the public API, '
              'the command line and the reports. See DESIGN.md.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1); f.write('\n')
print(len(checks), 'checks;', len(na), 'not claimed')
