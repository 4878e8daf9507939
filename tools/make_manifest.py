"""Regenerate /verif/MANIFEST.json from the registered rules and properties.jsonl."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa import rules  # noqa: E402

NA = {
    'C36': 'Idempotence of a string rewriting quantifies over the values of regular-expression substitutions and percent-decoding; a static '
           'argument would need a model of the string function itself, not of the control or data flow around it.',
    'C37': 'decode(encode(x)) == x is a semantic equality of string functions over all contents; no dataflow, typestate or syntactic rule '
           'in reach decides it, only execution or a solver would.',
    'C38': 'Bounds on time and memory depend on run-time sizes of external inputs (XML entity expansion, document size, redirect chains).',
}
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    if i in rules.RULES:
        checks.append({
            'property': i,
            'quick_cmd': 'python3 sa/check.py %s' % i,
            'thorough_cmd': 'python3 sa/check.py %s --thorough' % i,
            'technique': 'static analysis: ' + (rules.TECHNIQUE[i] or 'path-sensitive interprocedural dataflow'),
            'level': 'other',
            'level_note': 'Decides the property from the source on every run: all paths of the analysed entry points are enumerated symbolically '
                          'by abstract interpretation (loops summarised, no execution, no solver). Trusts the summaries of library callees and '
                          'the modelled Python semantics listed under assumptions in the evidence file.',
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'Rule not built yet.')})
m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q sa', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the checks read the source only. Fixes of genuine defects are listed in known_findings.txt.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
