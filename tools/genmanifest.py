#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, subprocess, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
NOTES = json.load(open(root + '/tools/notes.json'))
hooks = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in hooks if l.split(' ', 1)[1].startswith('hook:')]
checks, na = [], []
for p in props:
    i = p['id']
    n = NOTES.get(i)
    if n is None:
        na.append({'property': i, 'reason': 'no check built yet'})
        continue
    checks.append({
        'property': i,
        'quick_cmd': f'/verif/check.sh {i} quick',
        'thorough_cmd': f'/verif/check.sh {i} thorough',
        'evidence_file': f'/verif/evidence/{i}.json',
        'technique': n['technique'],
        'level': 'model_checking',
        'level_note': n['note'],
    })
m = {
    'version': 1,
    'setup_cmd': '/verif/setup.sh',
    'hooks': {
        'guard': '--cfg moka_mc',
        'enable': 'RUSTFLAGS="--cfg moka_mc" with the harness crate /verif/harness, whose [patch.crates-io] section replaces the concurrency crates by model-checked ones (see /verif/env.sh)',
        'source_commits': hooks,
    },
    'checks': checks,
    'not_applicable': na,
    'notes': 'One binary (/verif/harness, built by /verif/build_mc.sh from /repo\'s working tree) runs all checks; /verif/replay.sh FILE re-runs a reported execution with a log.',
}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
