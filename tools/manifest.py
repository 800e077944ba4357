"""Writes MANIFEST.json: python3 tools/manifest.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

COMMON = (
    'Seeded search, not exhaustive: no violation among the executions explored (counted in the evidence file). '
    'Trusts: thread switches only between the instrumented steps (statements, attribute loads, seams); '
)

CHECKS = {
    'C01': ('seeded thread schedules, differential against each script run alone',
            'the library run alone as the oracle of what each thread must see.'),
    'C02': ('exceptions injected at every seam of nested operations; context snapshots and a model of the variable stack',
            'public reads of the context show all of it.'),
    'C03': ('transient faults, then fault-free retry compared with a fresh process; same, other and concurrent threads',
            'a fresh instance of the library as the oracle.'),
    'C04': ('source, container and hook faults during collecting mappings, compared with a reference model',
            'the reference model (sim/model.py).'),
    'C05': ('fault injection with a reference model of parsing and of the declared constraints',
            'the reference model (sim/model.py).'),
    'C06': ('histories of mappings on one instance, aborted by injected faults; old/new/gone per field',
            'the reference model for the values a mapping produces.'),
    'C07': ('seeded thread schedules and faults; interpreter settings fingerprint and a warnings observer thread',
            'the fingerprint lists the settings that matter.'),
    'C08': ('on-demand reads and nested mappings from hooks under schedules and faults, compared with a reference model',
            'the reference model (sim/model.py).'),
    'C09': ('seeded schedules of threads that define, create and instantiate; declared order observed',
            'none but the schedule points.'),
    'C10': ('seeded schedules of racing first uses, late definitions and probe faults, against the identity table',
            'none but the schedule points.'),
    'C11': ('random cursor walks with transient faults, compared with resolving the keys afresh',
            'the reference resolution of keys in plain data (sim/model.py).'),
    'C12': ('member faults in merged sources, compared with a reference merge model',
            'the reference merge model (sim/model.py).'),
    'C13': ('simulated files: faults, replacement, truncation at any step; version and open-handle model',
            'files are read through open().'),
    'C14': ('counting hooks, factories, simulated clock under faults and schedules, compared with a reference model',
            'the reference model (sim/model.py).'),
    'C15': ('collections injected at chosen steps; weak references and parent links observed',
            'gc.collect() finds what nothing refers to.'),
    'C16': ('histories and thread schedules of reads through several sources, with failing application types and values, '
            'compared with the conversion tables', 'the tables as written in sim/model.py.'),
    'C17': ('failures, interrupts, re-entrancy, interleaved generators and thread schedules in transformations, compared '
            'with a reference model', 'the reference model of the transformations (sim/props/c17.py).'),
    'C18': ('source, conversion and hook faults and histories of mappings with captures and groups, compared with a '
            'reference model', 'the reference model (sim/model.py).'),
    'C19': ('faults in simulated modules and in blocks, thread schedules and nested mappings, compared with a reference '
            'model', 'the reference model of code texts (sim/props/c19.py).'),
    'C20': ('questions asked at any moment of histories with faults and re-entrant hooks, compared with a reference model',
            'the reference model (sim/model.py).'),
}

NOT_APPLICABLE = {
}


def main():
    checks = []
    for pid, (technique, trusts) in sorted(CHECKS.items()):
        if not os.path.exists(os.path.join(ROOT, 'sim', 'props', pid.lower() + '.py')):
            NOT_APPLICABLE[pid] = 'check under construction'
            continue
        checks.append({
            'property': pid,
            'quick_cmd': './check ' + pid,
            'thorough_cmd': 'VERIF_TIER=thorough ./check ' + pid,
            'technique': 'deterministic simulation with fault injection: ' + technique,
            'level': 'exploration',
            'level_note': COMMON + trusts,
        })
    doc = {
        'version': 1,
        'setup_cmd': 'true',
        'checks': checks,
        'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NOT_APPLICABLE.items())],
        'notes': 'No hooks in /repo: yield points are woven into the sources in memory when they are loaded '
                 '(sim/loader.py). ./replay FILE replays a violation.',
    }
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fo:
        json.dump(doc, fo, indent=1)
        fo.write('\n')


main()
