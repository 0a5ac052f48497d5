#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from the tables below.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, level_note=None, na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None,
                     **({"state": state} if state else {})), _note=level_note, _na=na))

exec(open(os.path.join(V, 'tools', 'proptable.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
man = dict(version=1, setup_cmd="bash /verif/setup.sh", checks=[], not_applicable=[],
  hooks=dict(guard="none", enable="no hook is needed: contracts live in /verif/contracts and are bound to the functions of /repo by name on every run", source_commits=[]))
for p in P:
    if p['_na']:
        man['not_applicable'].append(dict(property=p['id'], reason=p['_na']))
    else:
        man['checks'].append(dict(property=p['id'], quick_cmd="bash /verif/check %s" % p['id'], thorough_cmd="VERIF_TIER=thorough bash /verif/check %s" % p['id'],
            technique="contract-based deductive verification: VCs generated from go/ssa of the real functions, discharged by z3/cvc5, lemmas by Lean",
            level="proof", level_note=p['_note']))
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
