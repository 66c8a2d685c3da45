#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below (run by hand, output committed)"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TH = 'lib_vm/thread.cpp'
P = []


def prop(id, title, statement, over, text, why, files, mech, note, level='proof', technique=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                  anchors={'files': ['source/' + f for f in files], 'mechanism': [{'name': m, 'where': 'source/' + w} for m, w in mech]},
                  _note=note, _level=level, _tech=technique or 'contract-based deductive verification of the extracted LLVM IR (function contracts, inductive loop summaries, z3)', _na=na))


exec(open(HERE + '/tools/table.py').read())

with open(HERE + '/properties.jsonl', 'w') as f:
    for p in P: f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
man = {'version': 1, 'setup_cmd': 'python3-vt tools/selfcheck.py', 'hooks': {'guard': 'none: no hook is compiled into /repo', 'enable': 'nothing to enable; the checks read the unmodified sources'},
       'checks': [{'property': p['id'], 'quick_cmd': 'python3-vt check.py %s' % p['id'], 'thorough_cmd': 'python3-vt check.py %s --thorough' % p['id'],
                   'technique': p['_tech'], 'level': p['_level'], 'level_note': p['_note']} for p in P if not p['_na']],
       'not_applicable': [{'property': p['id'], 'reason': p['_na']} for p in P if p['_na']]}
json.dump(man, open(HERE + '/MANIFEST.json', 'w'), indent=1)
open(HERE + '/MANIFEST.json', 'a').write('\n')
