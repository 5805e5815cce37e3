#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE] [extra simulator options]
Rebuilds the simulated binary of the property from /repo's working tree and searches seeded executions."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import build as B

def main():
    prop = sys.argv[1]
    rest = sys.argv[2:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = os.environ.get('VERIF_SEED', '1')
    if '--tier' in rest:
        i = rest.index('--tier'); tier = rest[i + 1]; del rest[i:i + 2]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    with open(os.path.join(V, 'checks.json')) as f: conf = json.load(f)
    c = conf['checks'][prop]
    if not B.build([prop]):
        print('check.py: build failed', file=sys.stderr); return 4
    exe = os.path.join(B.BUILD, 'bin', prop)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True); os.makedirs(os.path.join(V, 'replays'), exist_ok=True)
    if '--replay' in rest:
        return subprocess.call([exe, '--property', prop, '--tier', tier] + rest)
    runs, secs = (c['quick_runs'], c.get('quick_seconds', 240)) if tier == 'quick' else (c.get('thorough_runs', 100000000), c.get('thorough_seconds', 900))
    cmd = [exe, '--property', prop, '--tier', tier, '--seed', seed, '--runs', str(runs), '--max-seconds', str(secs), '--jobs', str(min(8, os.cpu_count() or 8)),
           '--evidence', os.path.join(V, 'evidence', prop + '.json'), '--replay-dir', os.path.join(V, 'replays'), '--known', os.path.join(V, 'known_findings.txt'),
           '--real', c['real'], '--stubs', conf['stubs'] + ('; ' + c['stubs'] if c.get('stubs') else ''), '--rule', conf['rule'] + (' ' + c['rule'] if c.get('rule') else '')] + rest
    sys.stdout.flush()
    return subprocess.call(cmd)

sys.exit(main())
