"""Writes /verif/MANIFEST.json for the property modules that exist."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, '/repo')
import importlib
TECH = {
    'C01': 'runtime monitoring: client runs against a logged HTTP/local source; file-tree and request-log oracle',
    'C02': 'runtime monitoring: audit runs, file-system audit events and tree snapshots vs. a set model',
    'C03': 'runtime monitoring: interpreter audit hook on all file-system effects under hostile lists',
    'C04': 'runtime monitoring: request log and tree snapshots of runs with unauthorised lists vs. an authority model',
    'C05': 'runtime monitoring: incremental runs, offline check of tree and request log vs. a change model',
    'C06': 'runtime monitoring: random histories of syncs and faults, offline check of state and tree after each step',
    'C07': 'runtime monitoring: audit hook and snapshots over dry runs and runs without deletion',
    'C08': 'runtime monitoring with fault injection in documents; snapshots before and after failing runs',
    'C09': 'runtime monitoring with network fault injection (server plans, patched http.client)',
}
DEF = 'runtime monitoring: generated executions of the real code judged online by an independent model'
NOTE = ('Every executed case is judged by an oracle that shares no code with resync; assurance extends to the explored cases only '
        '(seeded random plus enumerated corners, thorough tier explores more of the same space). Trusted: CPython, the harness in '
        '/verif/harness, its XML parser and HTTP server.')
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'harness', 'props', i.lower() + '.py')):
        m = importlib.import_module('harness.props.' + i.lower())
        checks.append({'property': i, 'quick_cmd': './run.py check ' + i, 'thorough_cmd': './run.py check %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': getattr(m, 'TECHNIQUE', TECH.get(i, DEF)), 'level': m.LEVEL,
                       'level_note': getattr(m, 'LEVEL_NOTE', NOTE)})
    else:
        na.append({'property': i, 'reason': 'no check has been built yet'})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the monitors use interpreter audit events, forked children and an HTTP server of their own.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not claimed')
