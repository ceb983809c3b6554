#!/usr/bin/env python3
"""Writes fstatic/rules/bindings.json, the confirmed registrations (run by hand; the result is reviewed before it is committed)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from fstatic.harness import Check
from fstatic.rules import bind
out = {m: [] for m in bind.MODS}
for m, r, w in bind.regs(Check('B02')):
    out[m].append(r.key())
    if r.cls and not r.owner.startswith('_'):
        out[m].append('class %s: %s' % (r.owner, bind.norm(r.cls)))
json.dump({m: sorted(set(v)) for m, v in out.items()}, open(bind.TABLE, 'w'), indent=0)
print({m: len(v) for m, v in out.items()})
