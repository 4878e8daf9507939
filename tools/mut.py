"""Try checks on edited scratch copies of the repository.

python3 tools/mut.py SPEC.py [name...]   SPEC.py defines MUTS = [(name, property ids, [(file, old, new)...], expected rc)]
"""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(m):
    name, props, edits, want = m
    d = tempfile.mkdtemp(prefix='mut-')
    try:
        shutil.copytree('/repo/openid', d + '/repo/openid', ignore=shutil.ignore_patterns('__pycache__'))
        for f in ('setup.py', 'README.md'):
            if os.path.exists('/repo/' + f):
                shutil.copy('/repo/' + f, d + '/repo/' + f)
        for f, old, new in edits:
            p = d + '/repo/' + f
            s = open(p, encoding='utf-8').read()
            if s.count(old) < 1:
                return name, 'EDIT DOES NOT APPLY: %s' % old[:60]
            open(p, 'w', encoding='utf-8').write(s.replace(old, new, 1))
            compile(open(p, encoding='utf-8').read(), p, 'exec')
        out = []
        for pr in props.split():
            r = subprocess.run([sys.executable, HERE + '/sa/check.py', pr], env=dict(os.environ, VERIF_REPO=d + '/repo', VERIF_EVIDENCE=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
            if r.returncode == want and '-v' not in sys.argv:
                out.append('%s ok' % pr)
                continue
            out.append('%s rc=%s%s' % (pr, r.returncode, '' if r.returncode == want else '  <<<<<< wanted %s' % want))
            if r.returncode:
                out += ['    ' + x[:170] for x in r.stdout.splitlines() if '[' in x or 'ERROR' in x][:3]
        return name, ('\n'.join(out) if any('<<' in x for x in out) or '-v' in sys.argv else ' '.join(out))
    finally:
        shutil.rmtree(d)


names = [a for a in sys.argv[2:] if a != '-v']
ns = {}
exec(open(sys.argv[1]).read(), ns)
sel = [m for m in ns['MUTS'] if not names or any(m[0].startswith(a) for a in names)]
with ThreadPoolExecutor(6) as ex:
    for name, text in ex.map(one, sel):
        print('*', name, '--', text, flush=True)
