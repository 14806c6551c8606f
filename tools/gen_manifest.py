#!/usr/bin/env python3
"""writes MANIFEST.json from the property list and the rule tables"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'sa'))
import rules
from oblig import SPEC_OBLIGATIONS
import importlib
NA = {
 'C40': 'quantifies over floating-point perturbations of runtime coordinates; no sound static bound on rounding of arbitrary cells is in reach',
 'C41': 'numeric round-trip equality through decimal text; quantifies over runtime values. Its structural clauses (same fields, same order, same mode on both sides) are decided by C14, C15, C16',
 'C42': 'time and memory use are runtime quantities; no static bound in reach',
 'C43': 'depends on what the external symmetry finder returns for each runtime structure; the structural part (every operation used, first of each orbit kept) is decided by C01 and C05',
}
TECH = {}
checks = []
has = set(k for k, v in SPEC_OBLIGATIONS.items() if v)
for m in ('commands', 'fs', 'names', 'owner', 'effects', 'data', 'linear', 'text'):
    try:
        mm = importlib.import_module('r_' + m)
    except ImportError:
        continue
    has |= set(mm.RULES)
    for k, v in getattr(mm, 'TECH', {}).items():
        TECH.setdefault(k, []).append(v)
na = [{'property': k, 'reason': v} for k, v in sorted(NA.items())]
for l in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(l)['id']
    if p in NA:
        continue
    if p not in has:
        na.append({'property': p, 'reason': 'check under construction'})
        continue
    t = []
    if SPEC_OBLIGATIONS.get(p):
        t.append('static dataflow analysis: canonical value-graph summaries of the functions compared with reference descriptions')
    t += TECH.get(p, [])
    checks.append({'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'python3 check.py %s --thorough' % p,
                   'technique': 'static analysis: ' + '; '.join(t),
                   'level': 'other',
                   'level_note': 'Static analysis of the whole package source on every run. Functions whose normal form equals the reference are decided for all inputs (exact arithmetic, documented library behaviour); code outside the analysed vocabulary is reported UNDECIDED in the output and evidence and not counted as discharged.'})
json.dump({'version': 1, 'setup_cmd': 'python3 -c "import ast, json"', 'checks': checks, 'not_applicable': na,
           'hooks': {'guard': 'none', 'enable': 'no hooks: nothing in /repo is instrumented'}},
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
