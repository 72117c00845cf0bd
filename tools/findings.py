#!/usr/bin/env python3
"""Writes known_findings.jsonl from this list (fixed entries suppress nothing)."""
import json, subprocess
F = [l.strip().split('|') for l in open('/verif/tools/findings.txt') if l.strip() and not l.startswith('#')]
log = dict(reversed(l.split(' ', 1)) for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines())
with open('/verif/known_findings.jsonl', 'w') as out:
    for f in F:
        if f[0] == 'fixed':
            _, props, subj, what = f
            c = log['fix: ' + subj]
            for p in props.split(','):
                out.write(json.dumps({'id': f'fixed-{c}-{p}', 'property': p, 'status': 'fixed', 'commit': c,
                    'what': f'fixed: property={p} {c} {what}'}) + '\n')
        else:
            _, i, p, cls, match, what = f
            out.write(json.dumps({'id': i, 'property': p, 'status': 'known', 'class': cls, 'match': match, 'what': what}) + '\n')
