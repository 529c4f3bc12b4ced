#!/usr/bin/env python3
"""Write /verif/MANIFEST.json from properties.jsonl and the list of claimed checks."""
import json
CLAIMED = open('/verif/tools/claimed.txt').read().split()
TECH = {
 'C01': 'deterministic simulation: seeded schedules and hash seeds over the real save, bytes compared with one fixed execution',
 'C02': 'deterministic simulation with fault injection on the destination, bytes compared with the fault-free execution',
 'C03': 'deterministic simulation with short transfers and interrupted calls, bytes compared with the undisturbed execution',
 'C04': 'deterministic simulation: failed saves injected into histories, later saves compared with the history without them',
 'C05': 'deterministic simulation of save/edit histories, compared with the same edits without the earlier saves',
 'C06': 'deterministic simulation with fault injection on temporary storage, saved files compared with the fault-free execution',
 'C15': 'deterministic simulation of histories with rejected calls, compared with the history without them',
 'C16': 'deterministic simulation: damaged and failing media files read through a simulated file system',
 'C17': 'deterministic simulation with faults; the simulated file system is inspected after the drop of the workbook',
 'C18': 'deterministic simulation of saves through all entry points, bytes compared',
 'C19': 'deterministic simulation of several workbooks under seeded interleavings, bytes compared with each alone',
 'C20': 'deterministic simulation with a controlled clock, bytes compared outside the recorded time',
 'C21': 'deterministic simulation of crashes: states of the destination rebuilt from the recorded writes with losses',
}
DEF = 'deterministic simulation of seeded histories, schedules and saves; saved files decoded and compared with an executable reference model'
NA = 'A pure function of its arguments: no schedule, clock, I/O, fault or multi-step history takes part in the result, so there is nothing for a simulator to control; deciding it would be plain input testing or proof.'
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
m = {'version': 1, 'setup_cmd': './check.sh build', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in CLAIMED:
        m['checks'].append({'property': i, 'quick_cmd': f'./check.sh {i}', 'thorough_cmd': f'VERIF_TIER=thorough ./check.sh {i}',
            'technique': TECH.get(i, DEF), 'level': 'exploration',
            'level_note': 'Seeded search over simulated worlds running the real library, zip and tempfile code: a violation is a reproducible execution; absence is evidence for the explored worlds only. Trusts the simulated operating system, the instrumented preemption points and the oracle described in DESIGN.md.'})
    elif i.startswith('N'):
        m['not_applicable'].append({'property': i, 'reason': NA})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'The check is still being built.'})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
