#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. Every property in properties.jsonl is claimed
unless it is listed in NOT below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
NOT = {k: 'check under construction' for k in ()}
NOTE = ("Seeded random search over schedules, crash points and faults of the real code running inside one process on simulated time, "
        "goroutine scheduling at statement/handler/timer granularity, database and process crashes; no proof of absence. Trusts the in-memory MySQL model "
        "(row locks, MVCC snapshots, unique keys; no gap locks) and the oracle of the scenario.")
checks = []
for p in props:
    if p['id'] in NOT:
        continue
    checks.append(dict(property=p['id'], quick_cmd='./check.sh %s quick' % p['id'], thorough_cmd='./check.sh %s thorough' % p['id'],
        technique='deterministic simulation with fault injection (seeded schedule and fault search, minimised exact replay)',
        level='exploration', level_note=NOTE))
m = dict(version=1, setup_cmd='./tools/setup.sh', checks=checks,
    not_applicable=[dict(property=k, reason=v) for k, v in sorted(NOT.items())],
    notes='No hooks in /repo: the seams are the Go runtime overlay of the simulator build (tools/mkoverlay.py), database/sql drivers, interfaces of the repository and dialers. /repo carries only fix: commits, listed in known_findings.txt.')
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
