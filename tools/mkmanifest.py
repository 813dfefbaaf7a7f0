"""Writes MANIFEST.json."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
PROOF = ('every obligation generated from the current source is discharged for all '
         'well-formed calendars and all arguments; numpy/pandas operations enter by contract; '
         'a bounded run of the real code checks those contracts')
QUERY = 'contracts on the real source, symbolic execution + SMT (z3, cvc5)'
INFO = {
    p: (QUERY, 'proof', PROOF) for p in
    ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C21')
}
NA = {}


def main():
    import checks
    for p, f in checks.CHECKS.items():
        if p not in INFO:
            INFO[p] = checks.INFO[p]
    props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
    doc = dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=[
        dict(property=p, quick_cmd='python3-vt check.py %s' % p,
             thorough_cmd='python3-vt check.py %s' % p,
             evidence_file='evidence/%s.json' % p, technique=INFO[p][0], level=INFO[p][1],
             level_note=INFO[p][2]) for p in props if p in checks.CHECKS],
        not_applicable=[dict(property=p, reason=NA.get(p, checks.NOT_APPLICABLE.get(p, 'check not built yet')))
                        for p in props if p not in checks.CHECKS],
        notes='Checks need python3-vt (z3, cvc5) and the project interpreter; see DESIGN.md.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(doc, f, indent=1)
        f.write('\n')


main()
