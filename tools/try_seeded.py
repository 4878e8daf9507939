"""try_seeded.py [id...] -- run each planted bug's check (or --all checks) against a patched scratch copy of /repo."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(V, 'seeded')
args = [a for a in sys.argv[1:] if not a.startswith('-')]
every = '--all' in sys.argv
m = json.load(open(os.path.join(V, 'MANIFEST.json')))
claimed = [c['property'] for c in m['checks']]


def one(i):
    root = tempfile.mkdtemp(prefix='try')
    try:
        tree = os.path.join(root, 'repo')
        subprocess.check_call(['cp', '-a', '/repo', tree])
        subprocess.check_call(['cp', '-a', os.path.join(V, 'sa'), os.path.join(root, 'sa')])
        shutil.copy(os.path.join(V, 'known_findings.txt'), root)
        subprocess.check_call(['git', '-C', tree, 'apply', os.path.join(SEED, i, 'patch.diff')])
        p = json.load(open(os.path.join(SEED, i, 'meta.json')))['property']
        out = []
        for q in (claimed if every else [p]):
            r = subprocess.run([sys.executable, os.path.join(root, 'sa/check.py'), q], env=dict(os.environ, VERIF_REPO=tree),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode or q == p:
                lines = [l for l in r.stdout.splitlines() if l.startswith('  ')]
                out.append('%s %s rc=%d %s' % (i, q, r.returncode, 'CAUGHT ' + (lines[0][:200] if lines else '') if r.returncode == 1 else
                                               ('MISSED' if r.returncode == 0 else 'ERROR ' + r.stdout[-300:])))
        return out
    finally:
        shutil.rmtree(root)


ids = args or sorted(os.listdir(SEED))
with ThreadPoolExecutor(3) as ex:
    for o in ex.map(one, ids):
        print('\n'.join(o), flush=True)
