#!/usr/bin/env python3
"""mkseed.py SPEC...  Builds /verif/seeded/<id> from a spec file:
  #id NAME / #property ID / #srcs a.cpp b.cpp / #flags ... / #needs ... / #breaks ...
  #edit PATH  old  =>  new   (repeatable)
  #demo  program text (to the end)
and confirms in a scratch copy: builds, stable tests pass, demo fails with the patch and passes without it."""
import json, os, re, subprocess, sys
S = '/tmp/seedrepo'
DEMO = '''#!/bin/bash
# cwd: the repository, after its build.  Exit 0: the behaviour is as it should be.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
trap 'rm -r -- "$t"' EXIT
g++ -std=c++17 -O0 -g %(flags)s -I include -I src -I src/jogasaki/udf -I _build -I _build/protos "$here/demo.cpp" %(srcs)s -o "$t/demo" %(libs)s -lpthread > "$t/log" 2>&1 || { tail -5 "$t/log"; exit 3; }
timeout 100 "$t/demo"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main(spec):
    t = open(spec).read()
    head, demo = t.split('\n#demo\n', 1)
    head += '\n#end\n'
    files = re.findall(r'^#file (\S+)\n(.*?)(?=\n#(?:file|edit|end|id|property|srcs|flags|libs|needs|breaks|sdk)\b)', head, re.M | re.S)
    f = dict(re.findall(r'^#(id|property|srcs|flags|libs|needs|breaks|sdk) (.*)$', head, re.M))
    edits = re.findall(r'^#edit (\S+)\n(.*?)\n=>\n(.*?)(?=\n#(?:edit|end))', head, re.M | re.S)
    out = '/verif/seeded/' + f['id']
    os.makedirs(out, exist_ok=True)
    if not os.path.exists(S):
        sh(f'cp -a /repo {S}')
    sh(f'git -C {S} fetch -q /repo HEAD && git -C {S} reset -q --hard FETCH_HEAD')
    for p, old, new in edits:
        x = open(f'{S}/{p}').read()
        if x.count(old) != 1:
            print(f['id'], 'pattern count', x.count(old), p)
            return False
        open(f'{S}/{p}', 'w').write(x.replace(old, new))
    d = sh(f'git -C {S} diff').stdout
    open(out + '/patch.diff', 'w').write(d)
    for p, body in files:
        os.makedirs(os.path.dirname(f'{out}/{p}'), exist_ok=True)
        open(f'{out}/{p}', 'w').write(body + '\n')
    open(out + '/demo.cpp', 'w').write(demo)
    if f.get('sdk'):
        # headers of packages that are not installed: the stand-ins the demonstration needs go with it
        d = sh(f"g++ -std=c++17 -MM -I /verif/stubs -I include -I src -I _build -I _build/protos -I {out} {out}/demo.cpp {f.get('srcs', '')}", cwd='/repo').stdout
        for x in sorted(set(re.findall(r'/verif/stubs/(\S+)', d))):
            os.makedirs(os.path.dirname(f'{out}/sdk/{x}'), exist_ok=True)
            sh(f'cp /verif/stubs/{x} {out}/sdk/{x}')
        f['flags'] = f.get('flags', '') + ' -I "$here/sdk" -include cstdlib -ffunction-sections -Wl,--gc-sections'
    open(out + '/demo.sh', 'w').write(DEMO % dict(flags=f.get('flags', ''), srcs=f.get('srcs', ''), libs=f.get('libs', '')))
    os.chmod(out + '/demo.sh', 0o755)
    json.dump(dict(property=f['property'], needs=f['needs'], what_it_breaks=f['breaks']), open(out + '/meta.json', 'w'), indent=1)
    b = sh("sed 's#/repo#%s#g' /opt/vp/build.sh > /tmp/seedbuild.sh; bash /tmp/seedbuild.sh" % S) if 0 else None
    # demos against the scratch copy with and without the change
    bad = sh(f'bash {out}/demo.sh', cwd=S)
    good = sh(f'bash {out}/demo.sh', cwd='/repo')
    ok = bad.returncode not in (0, 3) and good.returncode == 0
    print(f['id'], 'demo with', bad.returncode, 'without', good.returncode, '' if ok else 'BAD ' + (bad.stdout + good.stdout)[-600:])
    if not ok:
        return False
    # build and stable tests: in /repo itself (the build knows that path only), undone straight afterwards
    try:
        a = sh(f'git -C /repo apply {out}/patch.diff')
        b = sh('bash /opt/vp/build.sh')
        r = sh('bash /opt/vp/test.sh /tmp/seedtests.json')
        j = json.load(open('/tmp/seedtests.json'))
    finally:
        sh('git -C /repo checkout -- .')
    n = lambda x: x if isinstance(x, int) else len(x)
    good = a.returncode == 0 and b.returncode == 0 and n(j['failed']) == 0
    print('   ', f['id'], 'apply', a.returncode, 'build', b.returncode, 'tests', {k: n(v) for k, v in j.items()}, '' if good else 'BAD ' + str(j.get('failed'))[:300])
    pid = f['property']
    r = sh(f'SAI_REPO={S} python3 /verif/checks/run.py {pid}')
    print('    check', r.returncode, [l for l in r.stdout.splitlines() if 'violated' in l][:1])
    return good


if __name__ == '__main__':
    for s in sys.argv[1:]:
        main(s)
    sh('bash /opt/vp/build.sh')
