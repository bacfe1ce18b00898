#!/usr/bin/env python3
"""mut.py <ID> < file with blocks:  '@ path' / old text / '=>' / new text  (several '@' blocks separated by '---' form separate mutants)
Applies each mutant to a scratch copy of the sources and prints the verdict of the check."""
import os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# J workers, each with a copy of its own; their output comes as it is ready
J, me = int(os.environ.get('J', '1')), 0
txt = sys.stdin.read()
for k in range(1, J):
    if os.fork() == 0:
        me = k
        break
R = '/tmp/mrepo' + (str(me) if me else '')
ids = sys.argv[1].split(',')
os.makedirs(R, exist_ok=True)
subprocess.run(['rsync', '-a', '--delete', '/repo/src', '/repo/include', R + '/'], check=False) if shutil.which('rsync') else None
if not shutil.which('rsync'):
    for x in ('src', 'include'):
        subprocess.run(['cp', '-au', '/repo/' + x, R + '/'])
for i, m in enumerate([x for x in txt.split('\n---\n') if x.strip()]):
    if i % J != me:
        continue
    saved = {}
    name = ''
    ok = True
    for b in ('\n' + m).split('\n@ ')[1:]:
        path, rest = b.split('\n', 1)
        old, new = (rest + '\n').split('\n=>\n', 1)
        new = new.rstrip('\n')
        p = os.path.join(R, path.strip())
        s = open(p).read()
        saved.setdefault(p, s)
        if s.count(old) < 1:
            print(f'#{i}: pattern not found in {path}: {old[:60]!r}')
            ok = False
            break
        name = name or (path.split('/')[-1] + ': ' + new.strip().split('\n')[0][:70])
        open(p, 'w').write(s.replace(old, new, 1))
    if ok:
        for pid in ids:
            env = dict(os.environ, SAI_REPO=R)
            r = subprocess.run([sys.executable, V + '/checks/run.py', pid], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            lines = [l for l in r.stdout.splitlines() if 'violated' in l or 'UNDECIDED' in l or 'BROKEN' in l or 'rror' in l]
            print(f'#{i} {pid} rc={r.returncode} {name}', *('     ' + l[:230] for l in lines[:int(os.environ.get("N", "2"))]), sep='\n', flush=True)
    for p, s in saved.items():
        open(p, 'w').write(s)

sys.stdout.flush()
if me == 0:
    try:
        while True:
            os.wait()
    except ChildProcessError:
        pass
