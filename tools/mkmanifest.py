#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the registered rules."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vf import spec
import vf.checks  # noqa

VALUE = 'path-sensitive value-flow abstract interpretation of the type-checked source, compared with the demanded effect/value per path'
TECH = {
    'C07': 'path and effect analysis of the timer loop (re-arm obligation on every exit)',
    'C19': 'lock-region and field-access analysis over every access path',
    'C31': 'ordering, ownership and lifetime analysis of the teardown call graph',
    'C40': 'non-interference analysis: value flow under diagnostics on/off compared',
    'C41': 'call-graph (who-may-call) analysis over all virtual dispatch targets',
    'C44': 'ownership/lifetime order plus value-flow analysis of destructors',
    'C46': 'constant-table evaluation over the syntax tree and cross-table agreement',
    'C47': 'definite-assignment dataflow analysis over every local, field and out-parameter',
    'C30': 'constant propagation of bus names and object paths across programs, compared for agreement',
}
TECH['C49'] = 'type-level query over every D-Bus message construction: marshalled C++ types against the method signatures'
TECH['C50'] = 'symbolic path enumeration of the discovery loops: per-iteration rules on what is asked, taken up and dropped'
TECH['C51'] = 'escape and lifetime analysis over the syntax tree: closures, kept arguments, returned references, views, reference members, walks'
TECH['C52'] = 'path-sensitive value flow of what is written to the control objects and the leader property, against the values the pass itself used'
NA = {
    'N01': 'depends on the physics of the machine (plant model): no static argument over this source bounds temperatures',
    'N02': 'wall-clock latency of D-Bus, sysfs and the scheduler is not a property of the source text that a static rule in reach can bound',
    'N03': 'resident memory and log size over unbounded time depend on run-time rates and external traffic; no sound static bound in reach',
}
NOTE = ('Sound for the modelled C++ fragment over all inputs and histories: every path partition of the named functions (callees in context, '
        'loops by invariant summarisation) is compared with the rule; joins and unmodelled constructs are reported as undecided in the evidence, never as violations. '
        'External libraries are taken at their documented interfaces.')
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in spec.REG:
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i,
                       'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': TECH.get(i, VALUE), 'level': 'other', 'level_note': NOTE})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
