#!/usr/bin/env python3
"""A check's process was killed by a signal: find the case that does it and report a violation."""
import glob, json, os, re, subprocess, sys
root, prop, tier, binary, rc = sys.argv[1:6]
d = os.path.join(root, 'evidence', 'replay')
cand = []
for f in sorted(glob.glob(f'{d}/{prop}.*.running')):
    t = open(f).read().split()
    if len(t) == 2: cand.append((t[0], int(t[1])))
    os.remove(f)
hit = None
for w, s in cand:
    try:
        r = subprocess.run([binary, 'case', w, str(s), '1'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        if r.returncode < 0 or r.returncode == 66: hit = (w, s); break
    except subprocess.TimeoutExpired:
        pass
w, s = hit or (cand[0] if cand else ('unknown', 0))
log = ''
if os.environ.get('SAN_LOG'):
    for f in glob.glob(os.environ['SAN_LOG'] + '.*'):
        log += open(f, errors='replace').read()[:20000]
kind = re.search(r'(ERROR: AddressSanitizer: \S+|WARNING: ThreadSanitizer: [^(]+)', log)
path = f'{d}/{prop}-{w}-{s}.json'
msg = (kind.group(1).strip() + ': ' if kind else '') + f'the process died (exit status {rc}) while running one of {cand}; ' + ('reproduced by this case' if hit else 'not reproduced by any of them alone')
json.dump({'property': prop, 'workload': w, 'seed': s, 'tier': tier, 'message': msg, 'trace': log.splitlines()[:300]}, open(path, 'w'), indent=1)
level = 'exploration'
for c in json.load(open(os.path.join(root, 'MANIFEST.json')))['checks']:
    if c['property'] == prop: level = c['level']
json.dump({'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': level, 'wall_s': 0.0, 'violations': 1,
           'coverage': {'evaluations': 1, 'distinct_nontrivial': 1, 'rule': 'the process survived its workloads', 'samples': [msg]},
           'assumptions': [], 'known_findings_observed': []},
          open(os.path.join(root, 'evidence', prop + '.json'), 'w'), indent=1)
print('  ' + msg)
print(f'VIOLATION property={prop} replay={path}')
