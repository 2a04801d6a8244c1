#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os, re, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {}
TECH = {
    'C01': 'property-based testing: equilibrium of reported reactions over generated models',
    'C02': 'property-based testing: differential against an independent direct-stiffness reference',
    'C03': 'property-based testing: metamorphic superposition of load cases',
    'C04': 'property-based testing: differential between analysis methods, solvers and options',
    'C05': 'stateful property-based testing: edit/analyse histories against a freshly built model',
    'C06': 'property-based testing: metamorphic rigid placement of models',
    'C07': 'property-based testing: cut equilibrium and beam theory along generated members',
    'C08': 'property-based testing: extremes and arrays against dense pointwise queries',
    'C09': 'property-based testing: physical members against chains of separate members',
    'C10': 'property-based testing: releases against an explicit hinge model',
    'C11': 'property-based testing: equivalent load descriptions compared; invalid ones refused',
    'C12': 'property-based testing: support conditions as invariants; rigid movements as metamorphic relation',
    'C13': 'property-based testing: one-way complementarity and differential against the reduced linear model',
    'C14': 'property-based testing: differential against reference second-order theory',
    'C15': 'property-based testing: reciprocity, symmetry, energy and rigid-body invariants',
    'C16': 'property-based testing: generated patch tests with exact fields',
    'C17': 'property-based testing: pressure resultants, cut equilibrium, convergence to plate theory',
    'C18': 'property-based testing: geometric invariants of generated meshes',
    'C19': 'stateful property-based testing: model-based editing histories',
    'C20': 'property-based testing: mechanisms classified by an independent rank computation',
    'C21': 'property-based testing: differential over tags and reporting options',
    'C22': 'property-based testing: generated reports parsed back and compared with the model',
    'C23': 'property-based testing: rendered scenes inspected and compared with the model',
    'C25': 'property-based testing: metamorphic change of units',
    'C26': 'property-based testing: metamorphic renaming, reordering and end swaps',
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif not os.path.exists(os.path.join(V, 'harness/checks', i.lower() + '.py')):
        na.append({'property': i, 'reason': 'its check is still being built'})
    else:
        checks.append({'property': i, 'quick_cmd': f'./run.py {i} quick', 'thorough_cmd': f'./run.py {i} thorough', 'technique': TECH[i],
                       'level': 'exploration',
                       'level_note': 'Generated-input search with shrinking against the oracle described in DESIGN.md; trusts the harness '
                                     '(generators, reference model, tolerances) and numpy/scipy; not exhaustive.'})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'Known and repaired defects: known_findings.txt. Replay a failure with ./run.py <ID> --replay <file>.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', 'not applicable:', [q['property'] for q in na])
