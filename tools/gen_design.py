#!/usr/bin/env python3
"""DESIGN.md = design_head.md + per-property table + findings + planted-bug table (from /tmp/seed results file if given)"""
import json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'sa'))
from oblig import SPEC_OBLIGATIONS
NOTE = {
'C01': 'The de-duplicating generator must have the normal form "stream, filtered by: identifier not among the identifiers of all symmetry images of the emitted prefix"; state of two runs kept apart by the alias analysis (no default-argument, module or class level store reached).',
'C02': 'Each enumeration must be the comprehension over `combinations(eligible, n)` of parent cells with a scatter of the new species at the chosen indices.',
'C03': 'One-atom extension and level streams as in C01/C02; a one-shot iterator may not be handed out and consumed again (stream-linearity rule).',
'C04': 'Existential over all permutations of whole-array equality.',
'C05': 'One permutation per (rotation, translation) pair, `lexsort` keys and the affine map compared as terms.',
'C06': 'Constructor, setter and derived data; class state invariant: after the setter all derived attributes are functions of the current numbers.',
'C07': 'Lattice product, per-atom translations and `repeat` pairing compared as terms.',
'C08': 'Divisor set and nested ranges compared as comprehension terms.',
'C09': 'Existential over all rotations; reduction is a prefix-filter by equality.',
'C10': 'Linear-algebra terms; perturbation is a per-site map with a fresh draw per site (draws carry the scope they occur in).',
'C11': 'Sequence operations as terms over the site list; copies checked by the alias analysis.',
'C12': 'Sphere query as an existential over 27 images; clarifier loop as a fold; no removal from the list being iterated.',
'C13': 'Restriction predicates as terms.',
'C14': 'The written text as a term: header, counts and coordinate lines come from the same grouping.',
'C15': 'Parser slices, scale branches and coordinate-mode branch as terms.',
'C16': 'Field names and rounding of reader and writers as terms.',
'C17': 'Branch conditions of reader and writer as terms.',
'C18': 'For every write in a command: the guard on the path, the transformation applied and the stream it comes from.',
'C19': 'Option declarations (decorators) joined with the call of the application and its constructor; every option must reach its use un-substituted.',
'C20': 'Every file effect reachable from a command, with a path algebra for its target; unique-name discipline for result files.',
'C21': 'Definite assignment on all paths, attribute existence, call signatures for the whole package, including dead branches.',
'C22': 'Interprocedural ownership: no write may reach a value received from the caller or held by another object, except by the documented mutators.',
'C23': 'Transitive effect sets: random, clock, environment, `id`/`hash` order, set iteration order that reaches a result.',
'C24': 'Table lint against a built-in periodic table; species class as terms.',
'C25': 'Both representation fields after each operation as terms (index map and list in step).',
'C26': 'Walk loop as terms; neighbour query over the whole grid.',
'C27': 'Node updates (order included) and selection as terms.',
'C28': 'Array/grid maps with axis order as terms.',
'C29': 'Table decided completely: 120 rows, permutations, identity, closure, isometry of the shipped coordinates; and that the code uses the whole table.',
'C30': 'Arguments of every symmetry-finder call and use of its results as terms.',
'C31': 'Code-execution sinks reachable from readers and commands.',
}
out = [open(os.path.join(H, 'tools', 'design_head.md')).read()]
NA = {}
man = json.load(open(os.path.join(H, 'MANIFEST.json')))
for x in man['not_applicable']:
    NA[x['property']] = x['reason']
tech = {c['property']: c['technique'] for c in man['checks']}
out.append('\n## Properties\n')
for l in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    if i in NA:
        out.append('* **%s %s** — not applicable: %s.' % (i, p['title'], NA[i].rstrip('.')))
        continue
    n = len(dict.fromkeys(SPEC_OBLIGATIONS.get(i, [])))
    out.append('* **%s %s** — %s %s Bounds: none on inputs (all inputs, schedules of consumption and histories of calls are covered by the normal form). Method: %s.'
               % (i, p['title'], NOTE[i], ('%d interface functions compared with references.' % n) if n else '', tech[i].replace('static analysis: ', '')))
out.append('\n## Findings in ababe\n')
out.append('Repaired by `fix:` commits or recorded as known (`KNOWN_FINDINGS.txt`):\n')
for l in open(os.path.join(H, 'KNOWN_FINDINGS.txt')):
    l = l.strip()
    if l and not l.startswith('#'):
        out.append('* ' + l)
tail = os.path.join(H, 'tools', 'design_tail.md')
if os.path.exists(tail):
    out.append(open(tail).read())
out.append('\n## Planted bugs (`seeded/`) and what catches them\n')
out.append('| bug | property | needs | caught by its own check |\n|---|---|---|---|')
res = {}
rf = os.path.join(H, 'tools', 'seed_results.txt')
if os.path.exists(rf):
    for l in open(rf):
        w = l.split()
        res[w[0]] = w[2]
for i in sorted(os.listdir(os.path.join(H, 'seeded'))):
    m = json.load(open(os.path.join(H, 'seeded', i, 'meta.json')))
    out.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'], {'rc=1': 'yes', 'rc=0': 'no'}.get(res.get(i), '?')))
open(os.path.join(H, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
