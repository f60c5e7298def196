#!/usr/bin/env python3
"""writes MANIFEST.json from the registry and properties.jsonl"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, 'checks'), os.path.join(HERE, 'lib')]
import registry
NA = {
 'C21': 'termination and freedom from exceptions for arbitrary bytes need a ranking of the parsing loops and which lines exist after any sequence of searches in unknown text; the abstract strings available here lose that (spurious exceptions), and on the layouts that can be followed C34 decides it (an exception on any path is a violation there)',
 'C30': 'equality of the vector kernels with the portable code quantifies over the data-dependent results of shuffles, compares and table lookups; no dataflow domain in reach bounds those values, so only the parts in C11, C13, C25 and C26 are decided',
 'C31': 'a round trip relates two whole-program numerical results; the portable halves are decided separately (C12, C14), the composition through the vector kernels is a statement about runtime values no static domain here covers',
 'C32': 'the vector kernels, multiplication and shift are decided by C16; the portable implementation used on x86-64 is the third-party crcutil, whose inner loops are inline assembly that no analysis of the compiler IR can see into, so the claim about every implementation level is out of reach',
}
checks = []; na = []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l); i = p['id']
    if i in registry.T:
        t = registry.T[i]
        checks.append({'property': i, 'quick_cmd': 'bin/check ' + i, 'thorough_cmd': 'bin/check ' + i, 'technique': registry.TECH[i],
                       'level': t[2], 'level_note': registry.NOTE.get(i, registry.DEFNOTE)})
    else: na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': "python3 -c \"import sys; sys.path.insert(0, 'lib'); import ir; ir.irdump()\"", 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
