"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = {
    'C20': 'stateless model checking of the real code under a controlled '
           'thread scheduler (all schedules up to a preemption bound)',
    'C04': 'explicit-state search over counter histories of the real handler '
           'against a reference model',
    'C24': 'explicit-state search over registration/authentication histories '
           'of the real handlers against a reference model',
    'C16': 'explicit enumeration of all builder operation sequences up to a '
           'depth against a reference version tree',
    'C21': 'exhaustive enumeration of call sequences in freshly forked '
           'processes, differential against isolated runs',
    'C26': 'exhaustive enumeration of interpreter configurations x calls, '
           'each compared with a plain interpreter',
    'C05': 'exhaustive fault enumeration of registrar answers over ceremony '
           'sequences against a reference model',
}
DEFAULT = ('bounded exhaustive exploration of the real code against an '
           'executable reference model')

props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'mc/checks', i.lower() + '.py')):
        checks.append({
            'property': i,
            'quick_cmd': './check ' + i,
            'thorough_cmd': 'VERIF_TIER=thorough ./check ' + i,
            'evidence_file': 'evidence/{}.json'.format(i),
            'technique': TECH.get(i, DEFAULT),
            'level': 'model_checking',
            'level_note':
            'Every behaviour within the bounds stated in the evidence file was '
            'executed on the real code and compared with the reference model; '
            'nothing is claimed beyond the alphabet and the bounds. Trusted: '
            'the reference model and world in mc/, OpenSSL, cbor2, CPython.',
        })
    else:
        na.append({
            'property': i,
            'reason': 'not decided yet: the check is still being built'
        })
m = {
    'version': 1,
    'setup_cmd': 'bash tools/setup.sh',
    'checks': checks,
    'not_applicable': na,
    'notes': 'No hooks: every check drives the public interface of the code '
             'in /repo; see DESIGN.md.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
