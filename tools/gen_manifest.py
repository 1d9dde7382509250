"""Writes MANIFEST.json and known_findings.txt from the tables here (hashes looked up in /repo by commit subject)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CHECKS = json.load(open(os.path.join(ROOT, 'tools', 'checks.json')))
FIXES = [l.rstrip('\n').split('\t') for l in open(os.path.join(ROOT, 'tools', 'fixes.tsv')) if l.strip()]
FINDINGS = [l.rstrip('\n') for l in open(os.path.join(ROOT, 'tools', 'findings.txt')) if l.strip() and not l.startswith('#')]

props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks = []
for pid in props:
    if pid in CHECKS['checks']:
        c = CHECKS['checks'][pid]
        checks.append(dict(property=pid, quick_cmd=f'bash run.sh {pid}', thorough_cmd=f'VERIF_TIER=thorough bash run.sh {pid}',
                           evidence_file=f'evidence/{pid}.json', technique=c['technique'], level='exploration', level_note=c['note']))
na = [dict(property=p, reason=CHECKS['not_applicable'].get(p, 'its check is still being built')) for p in props if p not in CHECKS['checks']]
man = dict(version=1, setup_cmd='bash tools/setup.sh',
           hooks=dict(guard='PEAK_VERIF_HOOKS', enable='no hooks are needed: the monitors attach from /verif at run time, /repo carries only fix: commits', source_commits=[]),
           checks=checks, not_applicable=na, notes=CHECKS['notes'])
json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h%x09%s'], capture_output=True, text=True).stdout.splitlines()
subj = {s: h for h, s in (l.split('\t', 1) for l in log)}
with open(os.path.join(ROOT, 'known_findings.txt'), 'w') as f:
    f.write('# finding: property=<id> <key> <text>   a violation whose message contains <key> is this listed finding\n')
    f.write('# fixed: property=<id> <commit> <what failed>   repaired in /repo; suppresses nothing\n')
    for l in FINDINGS:
        f.write(l + '\n')
    used = set()
    for pids, s, what in FIXES:
        used.add(s)
        for pid in pids.split(','):
            f.write(f'fixed: property={pid} {subj[s]} {what}\n')
for s in subj:
    if s.startswith('fix:') and s not in used:
        print('NOT RECORDED:', s)
