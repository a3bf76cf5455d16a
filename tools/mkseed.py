"""Builds and confirms planted bugs in a scratch copy.  python3 tools/mkseed.py DEFS.py [id...]
DEFS.py defines SEEDS: list of dict(id, prop, file, old, new, demo (C++ text), srcs (extra sources to compile, default: link _build/libcoda.a), flags, needs, breaks)"""
import sys, os, subprocess, json, shutil
H = os.path.abspath(os.path.join(os.path.dirname(__file__), '..'))
W = '/tmp/w/seedcopy'
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]


def sh(c, cwd=W, t=600): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)


# the build script names /repo: rewrite it for the copy
shutil.rmtree(W, ignore_errors=True)
sh('cp -a /repo ' + W, '/')
shutil.rmtree(W + '/_build', ignore_errors=True)
B = open('/opt/vp/build.sh').read().replace('/repo', W)
open('/tmp/w/build.sh', 'w').write(B)
T = open('/opt/vp/test.sh').read().replace('/repo', W).replace('/opt/vp/build.sh', '/tmp/w/build.sh')
open('/tmp/w/test.sh', 'w').write(T)
r = sh('bash /tmp/w/build.sh')
assert r.returncode == 0, r.stderr[-2000:]
base = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', []) or []) if 1 else set()
for s in ns['SEEDS']:
    if want and s['id'] not in want: continue
    d = H + '/seeded/' + s['id']
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    sh('git checkout -- .')
    p = W + '/' + s['file']
    edits = s.get('edits') or [(s['old'], s['new'])]
    open(d + '/demo.cpp', 'w').write(s['demo'])
    san = '' if s.get('nosan') else '-fsanitize=address,undefined -fno-sanitize-recover=all'
    if 'srcs' in s:
        comp = '\n'.join('%s %s -O1 -g -w -fPIC -I. -c %s -o "$t/o%d.o" || exit 3' % ('gcc' if x.endswith('.c') else 'g++ -std=c++11', san, x, i) for i, x in enumerate(s['srcs']))
        link = '"$t"/o*.o _build/libcoda.a'
    else: comp, link = '', '_build/libcoda.a'
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run with cwd /repo after the build
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -r "$t"' EXIT
export ASAN_OPTIONS=detect_leaks=%d
%s
g++ -std=c++11 %s -O1 -g -w -I. "$here/demo.cpp" %s %s -lexpat -lpthread -lrt -o "$t/demo" || exit 3
cd "$t" && timeout 120 ./demo
''' % (s.get('leaks', 0), comp, san, link, s.get('flags', '')))
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    r = sh('bash /tmp/w/build.sh'); assert r.returncode == 0
    r0 = sh('bash %s/demo.sh' % d)
    t = open(p).read()
    ok = True
    for a, b in edits:
        if t.count(a) < 1 or (t.count(a) > 1 and not s.get('first')): print(s['id'], 'OLD TEXT occurs', t.count(a)); ok = False; break
        t = t.replace(a, b, 1)
    if not ok: continue
    open(p, 'w').write(t)
    diff = sh('git diff').stdout
    open(d + '/patch.diff', 'w').write(diff)
    r = sh('bash /tmp/w/build.sh')
    if r.returncode: print(s['id'], 'BUILD FAILED', r.stderr[-500:]); continue
    r1 = sh('bash %s/demo.sh' % d)
    rt = sh('bash /tmp/w/test.sh /tmp/w/seedres.json')
    tests = json.load(open('/tmp/w/seedres.json'))
    print(s['id'], 'clean', r0.returncode, 'bug', r1.returncode, 'tests', rt.returncode, str(tests)[:80], '' if r0.returncode == 0 and r1.returncode not in (0, 3) else 'BAD ' + r0.stderr[-600:] + r1.stderr[-300:])
sh('git checkout -- .')
shutil.rmtree(W, ignore_errors=True)
