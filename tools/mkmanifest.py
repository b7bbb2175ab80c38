#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties that have a workload"""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import settings  # noqa

PURE = ('a pure function of its arguments: no schedule, clock, randomness, I/O, fault or '
        'history enters, so a simulator has nothing to decide; only input generation would, '
        'which is another technique')
NA = dict(
    C23=PURE,
    C26=PURE)
NOTE = dict(
    C09='Kills are modelled at system-call boundaries; power loss without fsync is out of scope.',
    C10='One fault position per operation (single or persistent from there on) plus short reads.',
    C13='Preemption at every line and at every file-system call.',
    C14='Truncated INI and CSV files, which cannot be told from complete ones, are out of scope; '
        'XML schema validation is not simulated.',
    C27='XML schema validation is not simulated, so rules of the schema are not judged.',
    C11='ASCII models; the risk library is a stub that only validates arguments.')


def main():
    checks = []
    for pid in sorted(settings.PROPS):
        conf = settings.PROPS[pid]
        checks.append(dict(
            property=pid,
            quick_cmd='python3 check.py %s --tier quick' % pid,
            thorough_cmd='python3 check.py %s --tier thorough' % pid,
            technique='deterministic simulation with fault injection (seeded search)',
            level='exploration',
            level_note=(
                'Seeded sampling of executions of the real code (%s) against an executable '
                'reference model; a clean batch is evidence, not proof. Simulated: %s. %s' % (
                    ', '.join(conf['real']), '; '.join(conf['stub']) or 'nothing',
                    NOTE.get(pid, ''))).strip()))
    doc = dict(
        version=1,
        setup_cmd='python3 check.py --selftest',
        checks=checks,
        not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
        notes='No hooks in /repo: every seam is a standard-library or third-party module that '
              'the simulator replaces inside its own interpreter (see DESIGN.md). Replay a '
              'violation with: python3 check.py --replay FILE')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(doc, f, indent=1)
        f.write('\n')


main()
