"""Properties and claims: generates properties.jsonl, MANIFEST.json (run: python3 dev/props.py)."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=(), note='', na=None, state=()):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
        quantifier=dict(over=over, text=' '.join(qtext.split())), why_tests_cant=' '.join(why.split()),
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     observe_at=list(observe), hook_needed=None)))
    assert len(title) <= 80, (id, len(title))
    if na: NA.append(dict(property=id, reason=na))
    else: CL.append((id, note))
CL = []
exec(open(os.path.join(V, 'dev', 'proplist.py')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
man = dict(version=1, setup_cmd='/verif/bin/setup',
    checks=[dict(property=i, quick_cmd='/verif/bin/check %s' % i, thorough_cmd='/verif/bin/check %s --tier thorough' % i,
        evidence_file='evidence/%s.json' % i,
        technique='contract-based deductive verification (CBMC/goto-instrument --dfcc loop and function contracts on the real C source)',
        level='proof', level_note=n) for i, n in CL],
    not_applicable=NA,
    notes='Contracts live in props/<id>/*.c; see DESIGN.md. No hooks are needed in /repo.')
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
ids = {i for i, _ in CL}
for i in ids:
    if not glob.glob(os.path.join(V, 'props', i, '*.c')): print('claimed without units:', i)
for d in sorted(os.listdir(os.path.join(V, 'props'))):
    if d not in ids: print('units without claim:', d)
print(len(CL), 'claims', len(NA), 'not applicable')
