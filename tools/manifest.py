#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list and the checks of the analyser."""
import json, subprocess, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
claimed = {}
for l in subprocess.check_output([here + '/build/gmv', 'list'], text=True).splitlines():
    i, lvl, tech = l.split('\t')
    claimed[i] = (lvl, tech)
NA = {
 'C35': "Equality of the two parties' keys rests on the commutativity of scalar multiplication over run-time scalars; the elliptic-curve group law is implemented in crypto/elliptic and cannot be derived by a sound static argument over this source. The role symmetry the equality needs is claimed as C09.",
 'C36': "Running time depends on math/big and crypto/elliptic, which are not constant time by design; no property of this source could establish it, and the statement is false for the generic curve implementation.",
 'C37': "The group law over 256 bit operands is implemented by crypto/elliptic's generic curve in the standard library, outside this source tree, and would need an algebraic proof rather than a static analysis. That this generic code is given the right parameters is claimed as C38.",
}
m = {'version': 1, 'setup_cmd': './build.sh', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in claimed:
        lvl, tech = claimed[i]
        m['checks'].append({'property': i, 'quick_cmd': f'./check.sh {i} quick', 'thorough_cmd': f'./check.sh {i} thorough',
            'technique': tech, 'level': lvl,
            'level_note': 'Static decision over all paths of the analysed functions under the stated assumptions; trusted: Go front end, SSA construction, models of the standard library, normalisation rules of the analyser.'})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'No static check for this property has been built yet.')})
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
open(here + '/MANIFEST.json', 'a').write('\n')
