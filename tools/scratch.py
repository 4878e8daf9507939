"""make a scratch copy of the repository with the edits of one MUTS entry: scratch.py SPEC NAME DIR"""
import shutil, sys
ns = {}
exec(open(sys.argv[1]).read(), ns)
m = [m for m in ns['MUTS'] if m[0] == sys.argv[2]][0]
d = sys.argv[3]
shutil.rmtree(d, ignore_errors=True)
shutil.copytree('/repo/openid', d + '/openid', ignore=shutil.ignore_patterns('__pycache__'))
shutil.copy('/repo/setup.py', d + '/setup.py')
for f, old, new in m[2]:
    s = open(d + '/' + f, encoding='utf-8').read()
    assert old in s, old
    open(d + '/' + f, 'w', encoding='utf-8').write(s.replace(old, new, 1))
