#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the parts registered in harness/check.py."""
import ast, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
src = open(ROOT + '/harness/check.py').read()
tree = ast.parse(src)
PARTS = next(ast.literal_eval(n.value) for n in tree.body if isinstance(n, ast.Assign) and n.targets[0].id == 'PARTS')
NA = {'C28': 'Encode/decode fidelity of one message at a time is a property of a pure function over unbounded text; a '
             'TLA+ state machine adds nothing to it (the guide excludes it).  Content fidelity end to end is claimed as C24.'}
SPECS = {'m_vtnevents': 'VtnEvents', 'm_ven': 'Ven', 'm_venevents': 'VenEvents', 'm_session': 'VenSession', 'm_vtnservice': 'VtnService', 'm_venreports': 'VenReports',
         'm_vtnreports': 'VtnReports', 'm_auth': 'Auth', 'm_pipeline': 'Pipeline', 'm_content': 'Content', 'm_poll': 'ExternalPoll',
         'm_opts': 'Opts', 'm_multi': 'Multi', 'm_system': 'System'}
checks, na = [], []
for p in props:
    i = p['id']
    if i in PARTS:
        mods = ', '.join(SPECS.get(m, m) for m, _ in PARTS[i])
        checks.append({
            'property': i,
            'quick_cmd': f'/opt/venv/bin/python harness/check.py {i} quick',
            'thorough_cmd': f'/opt/venv/bin/python harness/check.py {i} thorough',
            'technique': f'TLA+ specification ({mods}) checked with TLC; behaviours of the specification replayed into the code '
                         'and recorded executions of the code validated against the specification by TLC',
            'level': 'model_checking',
            'level_note': 'The specification is checked exhaustively on small constants; the code is checked on the generated and '
                          'random executions of this run, each step compared with what the specification demands. Trusted: TLC, '
                          'the virtual clock and in-process transport, and the independent message builder/reader in harness/wire.py.'})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'No check yet: the specification does not cover this part so far.')})
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: everything is observed through the public API and the wire.  See DESIGN.md.'}
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
