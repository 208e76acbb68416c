"""writes MANIFEST.json from claims.json and properties.jsonl"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claims = json.load(open(H + '/claims.json'))
checks = []
for l in open(H + '/properties.jsonl'):
    p = json.loads(l)['id']
    c = claims.get(p, {})
    if c.get('level') == 'proof':
        tech, note = 'contract-based deductive verification (generated verification conditions, z3)' + ('; Lean theorems' if p in ('C05', 'C06', 'C07') else ''), c['note'] + '; plus a bounded run against an independent oracle to find failing inputs'
        note += '. Trusted: the VC generator, z3, Python semantics as modelled; floats as exact reals; termination not proved.'
    elif c.get('note'):
        tech, note = 'contract-based deductive verification of the named functions; bounded search for the rest', 'proved: ' + c['note'] + '. Bounded: ' + '; '.join(c['bounded'])
    else:
        tech, note = 'bounded stand-in: scenario search against an independent oracle', 'bounded search only; no obligation discharged for this property yet'
    checks.append(dict(property=p, quick_cmd=f'python3-vt check.py {p} quick', thorough_cmd=f'python3-vt check.py {p} thorough', technique=tech,
                       level=c.get('level', 'exploration'), level_note=note))
json.dump(dict(version=1, setup_cmd="python3-vt -c 'import z3'", checks=checks, not_applicable=[]), open(H + '/MANIFEST.json', 'w'), indent=1)
