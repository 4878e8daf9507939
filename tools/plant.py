"""plant.py SPEC.py -- confirm planted bugs in a scratch copy of /repo and keep them under /verif/seeded.

SPEC.py defines BUGS = [dict(id, property, file, old, new [or edits=[(file, old, new)...]], needs, breaks, demo)].
demo is Python source run with cwd = the tree; it must raise/exit non-zero when the bug is present.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')


def tests(tree):
    r = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--continue-on-collection-errors', '-x' if 0 else '-q',
                        '-o', 'python_functions=NO_TEST_FUNCTIONS', '-rfE', '--tb=no', 'openid'], cwd=tree, env=dict(ENV, PYTHONPATH=tree),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return set(re.findall(r'^(?:FAILED|ERROR) (\S+)', r.stdout, re.M)), r.stdout[-300:]


def demo(d, tree):
    try:
        return subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=tree, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                              text=True, timeout=120)
    except subprocess.TimeoutExpired:
        class R:
            returncode, stdout = 124, 'timeout'
        return R


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    root = tempfile.mkdtemp(prefix='plant')
    tree = os.path.join(root, 'repo')
    subprocess.check_call(['cp', '-a', '/repo', tree])
    base, _ = tests(tree)
    try:
        for b in ns['BUGS']:
            if only and b['id'] not in only:
                continue
            subprocess.check_call(['git', '-C', tree, 'checkout', '-q', '--', '.'])
            d = os.path.join(root, b['id'])
            os.makedirs(d)
            with open(os.path.join(d, 'demo.py'), 'w') as f:
                f.write(b['demo'].lstrip('\n'))
            with open(os.path.join(d, 'demo.sh'), 'w') as f:
                f.write('#!/bin/bash\n# cwd is the source tree\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
            r0 = demo(d, tree)
            ok = True
            for fn, old, new in b.get('edits') or [(b['file'], b['old'], b['new'])]:
                p = os.path.join(tree, fn)
                s = open(p).read()
                if s.count(old) != 1:
                    print(b['id'], 'old text found %d times in %s' % (s.count(old), fn))
                    ok = False
                    break
                open(p, 'w').write(s.replace(old, new))
            if not ok:
                continue
            diff = subprocess.check_output(['git', '-C', tree, 'diff'], text=True)
            r1 = demo(d, tree)
            fails, tail = tests(tree)
            newf = fails - base
            good = r0.returncode == 0 and r1.returncode != 0 and not newf
            print(b['id'], 'OK' if good else 'REJECTED', 'demo', r0.returncode, r1.returncode, 'new failing tests', sorted(newf)[:4])
            if r0.returncode:
                print(r0.stdout[-800:])
            elif r1.returncode == 0 or '-v' in only:
                print(r1.stdout[-500:])
            if good:
                out = os.path.join(V, 'seeded', b['id'])
                if os.path.exists(out):
                    shutil.rmtree(out)
                shutil.copytree(d, out)
                open(os.path.join(out, 'patch.diff'), 'w').write(diff)
                json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    finally:
        shutil.rmtree(root)


main()
