#!/opt/venv/bin/python
"""Write /verif/MANIFEST.json from the checks that exist."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))
import mkprops  # noqa: E402
from sim import engine  # noqa: E402

TECH = {
    'C01': 'deterministic simulation: seeded I/O errors, full disks, '
           'interrupts and allocation failures against an undisturbed twin',
    'C02': 'deterministic simulation: seeded simulated environments (hash '
           'seed, clock, zone, locale, directory order, transfers) compared',
    'C03': 'deterministic simulation: seeded histories of crashed and failed '
           'runs, then recovery compared with a clean run',
    'C04': 'deterministic simulation: seeded faults and kills, whole-disk '
           'comparison of everything but the requested outputs',
    'C05': 'deterministic simulation: seeded crash points and failures over '
           'an existing output set, old/new/torn-tail invariant',
    'C06': 'deterministic simulation: seeded interleavings and histories of '
           'compilations in one process against each one alone',
    'C07': 'deterministic simulation: seeded target sets and histories of '
           'failed runs against each target alone',
    'C08': 'deterministic simulation: seeded byte delivery (short reads, '
           'buffers, layout) against a reference line reader',
    'C09': 'deterministic simulation: seeded damage to stored input, '
           'dependency-based containment against the undamaged run',
    'C10': 'deterministic simulation: seeded histories of releases, upgrades '
           'and roll-backs of devices that store and exchange identifiers',
    'C11': 'deterministic simulation of the shell script: stand-in commands '
           'with seeded failures, partial effects, signals and overlaps',
    'C12': 'deterministic simulation of the shell script: stand-in commands '
           'with seeded failures, partial effects, signals and overlaps',
    'C13': 'deterministic simulation: seeded damage to stored input, outputs '
           'decoded, checked for soundness and compared across languages',
    'C14': 'deterministic simulation: scripted size-estimating peer with '
           'seeded answers and failures against a reference model',
    'C15': 'deterministic simulation: devices whose clocks jump, run on and '
           'reboot at seeded instants, against a reference interpreter of '
           'the source',
    'C16': 'deterministic simulation: seeded histories of releases compiled '
           'one after another, with kills; untouched zones compared',
    'C19': 'deterministic simulation: seeded histories of runs into one '
           'directory, with kills and faults; every statement of the last '
           'files compared with the request, the data and the source',
    'C21': 'deterministic simulation: seeded sources a few records below, at '
           'and above each limit of the generated records, compiled over an '
           'earlier release after killed attempts and with short transfers, '
           'against an unlimited twin run and the untouched earlier files',
    'C22': 'deterministic simulation: seeded include lists in every form, '
           'with kills, short reads and failing operations; runs with the '
           'list against runs over the smaller and over the whole source',
    'C23': 'deterministic simulation: seeded changes to the command line over '
           'earlier releases, with failing, killed and short operations; '
           'refused requests must leave every file, served ones must match '
           'the plain request',
    'C24': 'deterministic simulation: seeded monstrous and growing sources, '
           'tiny transfers, failures and kills at operations and source '
           'lines; executed source lines and operations counted and bounded',
    'C25': 'deterministic simulation: seeded faults of the standard streams '
           'at any write, over odd, damaged and impossible requests; files '
           'and status against the run whose log is kept, and that log '
           'against request and database',
    'C20': 'deterministic simulation: seeded odd, impossible and damaged '
           'fields, kills and split transfers; every note and reason judged '
           'against a reference reading of the source',
}
NOTE = ('Seeded search over simulated executions of the real code; no '
        'violation in what was explored, not a proof. Trusts the simulator '
        '(sim/core.py), CPython, and: ')


def main():
    ids = [p['id'] for p in mkprops.P]
    checks, na = [], []
    reasons = dict(mkprops.NA)
    for i in sorted(ids):
        if os.path.exists(os.path.join(HERE, 'sim/checks/%s.py' % i.lower())):
            m = engine.load(i)
            checks.append({
                'property': i,
                'quick_cmd': './check.py %s --tier quick' % i,
                'thorough_cmd': './check.py %s --tier thorough' % i,
                'evidence_file': 'evidence/%s.json' % i,
                'technique': TECH[i],
                'level': m.META.get('level', 'exploration'),
                'level_note': NOTE + '; '.join(
                    m.META.get('assumptions') or ['nothing else']) + '.'})
        else:
            na.append({'property': i,
                       'reason': reasons.get(i, 'Check not built yet.')})
    man = {'version': 1,
           'setup_cmd': '/opt/venv/bin/python tools/selftest.py',
           'hooks': {'guard': 'SIM_HOOKS',
                     'enable': 'No hook was needed: every seam (file calls, '
                               'clock, peer library, commands on PATH) is '
                               'replaced from outside, so /repo is run as '
                               'it is.',
                     'source_commits': []},
           'checks': checks, 'not_applicable': na,
           'notes': 'Replay a violation with ./check.py ID --replay FILE.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
