#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from the tables below"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
Q = 'abstract interpretation of the LLVM IR of every operation (relational polyhedra, sequence domain), '
TECH = {
    'C01': 'lock-set analysis over all accesses of all operations (abstract interpretation of the IR)',
    'C02': 'lock-order graph and lock typestate (abstract interpretation of the IR)',
    'C03': Q + 'thread-modular lock invariants',
    'C04': Q + 'class invariant and observer contracts',
    'C05': Q + 'thread-modular flag/notification protocol rules',
    'C06': Q + 'channel contracts',
    'C07': 'thread-modular typestate of the hand-over cell (abstract interpretation of the IR)',
    'C08': Q + 'wait typestate',
}
NOTE = ('Sound for the modelled operations under the listed assumptions when no path is reported undecided (the evidence lists undecided paths); '
        'a violation is reported only with an exact abstract state that has an integer witness. Trusts the models of the standard library, clang and the IR reader.')
NA = {
    'N01': 'the time until an idle worker starts is a property of the scheduler and the clock; no static argument about the source bounds it',
    'N02': 'whole-history linearizability quantifies over runtime interleavings with real-time order; the per-operation and per-lock-section guarantees that are statically decidable are C01-C06',
    'N03': 'amortised cost depends on allocator and library growth policy at run time; no sound static cost bound is in reach here',
}
try:
    exec(open(os.path.join(ROOT, 'tools', 'claims.py')).read())
except FileNotFoundError:
    pass
checks = []
na = []
for p in props:
    i = p['id']
    if i in TECH:
        checks.append(dict(property=i, quick_cmd='./check.sh %s --tier quick' % i, thorough_cmd='./check.sh %s --tier thorough' % i,
                           technique=TECH[i], level='other', level_note=NOTES.get(i, NOTE) if 'NOTES' in globals() else NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'the analysis of this part is not finished yet')))
m = dict(version=1, setup_cmd='python3 -c "from absint.check import tool; tool()"', checks=checks, not_applicable=na,
         notes='Static analysis by abstract interpretation of the compiled (never executed) instantiations of the headers of /repo. See DESIGN.md.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
