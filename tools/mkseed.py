"""Development helper: build and validate the planted bugs (not used by any check).

python3 tools/mkseed.py [--notest] [--check] [id ...]
Applies each edit to /repo, runs the stable tests and the demonstration (with and
without the edit), optionally the property's quick check, undoes the edit and
writes seeded/<id>/.
"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
DEMO = '''#!/bin/bash
# exit 0: behaves as stated; nonzero: broken
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg TZ=UTC HOME=/root PYTHONHASHSEED=0
T=$(mktemp -d)
cd /repo && timeout 200 /opt/venv/bin/python -W ignore "$D/demo.py" "$T"
rc=$?
rm -rf "$T"
exit $rc
'''


def git(*a):
    return subprocess.run(['git', '-C', '/repo'] + list(a), capture_output=True, text=True)


def main():
    import seeds
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    assert not git('status', '--porcelain').stdout.strip(), 'repo dirty'
    for s in seeds.SEEDS:
        if args and s['id'] not in args and s['property'] not in args:
            continue
        d = os.path.join(HERE, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
        open(os.path.join(d, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
        demo = lambda: subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd='/repo', capture_output=True, text=True)
        r0 = demo()
        try:
            for f, old, new in s['edits']:
                p = os.path.join('/repo', f)
                t = open(p).read()
                assert t.count(old) == 1, (s['id'], f, t.count(old))
                open(p, 'w').write(t.replace(old, new))
            diff = git('diff').stdout
            r1 = demo()
            miss = set()
            if '--notest' not in sys.argv:
                subprocess.run(['bash', '/opt/vp/test.sh', '/tmp/seedtest.json'], capture_output=True)
                res = json.load(open('/tmp/seedtest.json'))
                passed = set(res.get('passed', []))
                miss = base - passed
            chk = ''
            if '--check' in sys.argv:
                c = subprocess.run(['./run.sh', 'check', s['property'], 'quick'], cwd=HERE, capture_output=True, text=True)
                chk = f'check rc={c.returncode} ' + ' | '.join(x for x in c.stdout.splitlines() if 'VIOLATION' in x)[:300]
        finally:
            git('checkout', '--', '.')
        if chk:
            rp = os.path.join(HERE, 'tools', 'seed_results.json')
            res = json.load(open(rp)) if os.path.exists(rp) else {}
            res[s['id']] = s['property'] + ' quick' if c.returncode == 1 else f'missed (exit {c.returncode})'
            json.dump(res, open(rp, 'w'), indent=1, sort_keys=True)
        ok = r0.returncode == 0 and r1.returncode != 0 and not miss
        print(s['id'], 'OK' if ok else 'BAD', 'clean', r0.returncode, 'bug', r1.returncode, 'tests lost', sorted(miss), chk, flush=True)
        if r0.returncode:
            print(r0.stdout[-800:], r0.stderr[-800:])
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']),
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)


main()
