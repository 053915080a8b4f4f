"""Writes MANIFEST.json from properties.jsonl and the modules that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}   # property -> what the level note adds
exec(open(os.path.join(V, 'tools', 'notes.py')).read())
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    if os.path.exists(os.path.join(V, 'fz', 'props', pid.lower() + '.py')):
        oracle = NOTES.get(pid, '')
        checks.append({
            'property': pid,
            'quick_cmd': 'python3-vt run.py check %s' % pid,
            'thorough_cmd': 'python3-vt run.py check %s --tier thorough' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': 'property-based testing (Hypothesis generators with shrinking): ' + oracle,
            'level': 'exploration',
            'level_note': 'Generated-input search over the real code in /repo/src with an '
                          'explicit oracle; no exhaustiveness is claimed beyond the '
                          'cases counted in the evidence. Trusts Python %s, '
                          'Hypothesis and the oracle code in fz/.' % '3.12',
        })
    else:
        na.append({'property': pid, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'python3-vt run.py setup', 'checks': checks,
     'not_applicable': na,
     'notes': 'No hooks: every check uses only the public interface of fauxdoc. '
              'Known findings are listed in KNOWN_FINDINGS.txt.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks;', len(na), 'not claimed')
