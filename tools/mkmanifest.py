"""Regenerate MANIFEST.json from rules/*.py (a property is claimed when its rule module exists)."""
import importlib, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
NA = {
 'P38': 'Round-trip equality of two recursive computations over all templates: no structural fact in reach decides the whole; its decidable parts (verbatim storage, exact markup, lexer/validator tables) are claimed as P04, P06, P07 and P10.',
 'P39': 'Asymptotic running time depends on runtime sizes and on the cost of dependencies; no sound static bound in reach.',
}
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    f = os.path.join(H, 'rules', i.lower() + '.py')
    if os.path.exists(f):
        m = importlib.import_module('rules.' + i.lower())
        checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py %s --thorough' % i,
                       'technique': m.TECHNIQUE, 'level': 'other', 'level_note': m.LEVEL_NOTE})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'No static check built (yet) for this property.')})
out = {'version': 1, 'setup_cmd': 'python3 -c "from engine import extract; extract.driver()"', 'checks': checks, 'not_applicable': na,
       'notes': 'Static analysis of the type-checked crate: a rustc_private driver dumps MIR, types, visibilities and constants of the current /repo tree; Python rule modules in rules/ decide the obligations.'}
json.dump(out, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print('%d claimed, %d not' % (len(checks), len(na)))
