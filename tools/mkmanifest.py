"""regenerates MANIFEST.json from properties.jsonl and the checks that exist"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'C01': 'runtime monitoring: exact-rational conversion oracle over a generated workload',
 'C02': 'runtime monitoring: refusal and operand-state monitors over hostile operand pairs',
 'C03': 'runtime monitoring: exact dimensional-analysis oracle over generated arithmetic',
 'C04': 'runtime monitoring: shadow-memory aliasing model over histories of in-place operations',
 'C05': 'runtime monitoring: purity monitor (population snapshots), immutability sweep of all units and constants',
 'C06': 'runtime monitoring: exact exponent-table shadow over random walks, law monitors',
 'C07': 'runtime monitoring: exact-rational comparison oracle and consistency monitors',
 'C08': 'runtime monitoring: dimensional rule table and bare-magnitude oracle over all ufuncs',
 'C09': 'runtime monitoring: numpy-on-magnitudes oracle over methods, axes, dtypes, out arguments',
 'C10': 'runtime monitoring: shadow-array state machine over read/write histories',
 'C11': 'runtime monitoring: independent grammar oracle over generated unit strings',
 'C12': 'runtime monitoring: interpreter audit-event and executed-bytecode monitors over hostile strings',
 'C13': 'runtime monitoring: independent decoders of each notation, parse-back oracle',
 'C14': 'runtime monitoring: round-trip and aliasing monitors, restored in separate interpreters',
 'C15': 'runtime monitoring: independent first-order propagation oracle',
 'C16': 'runtime monitoring: paired value/uncertainty reference over operation histories',
 'C17': 'runtime monitoring: state-machine model of the default units over histories',
 'C18': 'runtime monitoring: full sweep of unit objects and labels against an independent definition table',
 'C19': 'runtime monitoring: full sweep of constants against an independent parse of the NIST table',
 'C20': 'runtime monitoring: numpy-on-converted-magnitudes oracle over the math functions',
 'C21': 'runtime monitoring: reference selection oracle over preferred lists and default-unit settings',
 'C22': 'runtime monitoring: reference model extended with user definitions over definition histories',
 'C23': 'runtime monitoring: log comparison across permutations and across stressed threads',
 'C24': 'runtime monitoring: outcome-log comparison across interpreter configurations',
 'C25': 'runtime monitoring: construction oracle over data kinds and unit forms',
 'C26': 'runtime monitoring: weak-reference and allocation monitors over every kind of operation',
}
NOTE = ('Held on the generated executions observed (counts in the evidence file); trusts numpy on bare arrays, the CPython '
        'interpreter and the reference tables in /verif/qmon. Not a proof: inputs outside the generators are not covered.')
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'qmon', 'checks', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd='python3 run.py %s' % i, thorough_cmd='python3 run.py %s --thorough' % i,
                           technique=TECH[i], level='exploration', level_note=NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
m = dict(version=1, setup_cmd='python3 run.py SELFTEST', checks=checks, not_applicable=na,
         notes='No hooks in /repo: every monitor observes the public boundary, interpreter events or captured state.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
