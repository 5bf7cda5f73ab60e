"""Writes MANIFEST.json from the table of checks."""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'sa'))
import checks
NOT = {
    'C22': 'Memory safety on arbitrary bytes depends on relations between run-time values (lengths found in the input against the real extent of a buffer whose size deserialize is never told) that the interface does not carry, so no static argument can bound them; the code makes no attempt to.',
    'C23': 'Whether two separately built programs agree is not a fact of one source tree: type identifiers come from the order of dynamic initialisation and layouts from the ABI of each build; nothing in the source decides it.',
    'C25': 'Kokkos is not installed and not part of this build: the code is compiled out, so there is no type-checked program to analyse.',
}
ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': [], 'not_applicable': []}
for i in ids:
    p = checks.PROPS.get(i)
    if p:
        m['checks'].append({'property': i, 'quick_cmd': './check ' + i, 'thorough_cmd': './check ' + i + ' --thorough', 'technique': p.get('technique', checks.TECH), 'level': p.get('level', 'other'), 'level_note': p.get('note', checks.NOTE)})
    else:
        m['not_applicable'].append({'property': i, 'reason': NOT.get(i, 'no check yet')})
m['notes'] = 'Static analysis only: nothing of the library is executed by a check. Every run compiles witness/*.cc against /repo/src to LLVM IR and summarises it.'
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
