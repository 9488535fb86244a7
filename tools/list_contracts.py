#!/usr/bin/env python3-vt
"""Writes CONTRACTS.md: every contract, the function it covers and what it states (names of the postconditions are in contracts/*.py)."""
import sys, os, importlib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.setrecursionlimit(20000)
from contracts.index import PROPS
from vc import contract as K
mods = sorted({m for p in PROPS.values() for m in p['modules']})
for m in mods: importlib.import_module('contracts.' + m)
out = ['# Contracts by property (generated by tools/list_contracts.py)', '',
       'The root names the wrapper in `tu/<file>` that selects the template instantiation; the contract is in `contracts/<module>.py`.', '']
for p in sorted(PROPS):
    cs = K.REG.get(p, [])
    out += ['## %s (%d contracts; modules %s; bounded stand-ins: %s)' % (p, len(cs), ', '.join(PROPS[p]['modules']),
            ', '.join(f for fs in PROPS[p].get('bounded', {}).values() for f in fs)), '']
    out += ['* `%s` (%s): %s' % (c.root.split('::')[-1], c.tu, c.title) for c in cs] + ['']
open(os.path.join(HERE, 'CONTRACTS.md'), 'w').write('\n'.join(out))
