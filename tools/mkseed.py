#!/usr/bin/env python3
"""Make a planted bug: mkseed.py SPEC.py

SPEC.py defines id, property, needs, breaks, pkg, edits=[(file, old, new)],
demo (text of a Go test file of package pkg with func TestDemo).  The bug is
kept only after the patched tree builds, passes the stable tests, changes
lines of the original tree, and the demonstration tells both trees apart."""
import sys, os, json, subprocess, shutil, tempfile, re
spec = {}
exec(open(sys.argv[1]).read(), spec)
sid = spec['id']; pkg = spec['pkg']
out = '/verif/seeded/' + sid
def run(cmd, cwd, env=None, **k):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod -buildvcs=false', GOSUMDB='off')
tmp = tempfile.mkdtemp(prefix='seed.')
DEMO = '''#!/bin/bash
# Exit 0 when the property holds in the tree at the current directory.
d=$(cd "$(dirname "$0")" && pwd)
s=$(mktemp -d) || exit 2
trap 'rm -r "$s"' EXIT
cp "$d/demo_test.go.txt" "$s/zz_demo_test.go"
printf '{"Replace": {"%%s/%(dir)s/zz_demo_test.go": "%%s/zz_demo_test.go"}}' "$PWD" "$s" > "$s/overlay.json"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOSUMDB=off TMPDIR="$s" DEMO_DIR="$s"
timeout -k 5 250 go test -vet=off -overlay "$s/overlay.json" -run 'TestDemo$' -timeout 200s -count=1 ./%(dir)s
'''
try:
    wt = tmp + '/repo'
    shutil.copytree('/repo', wt, symlinks=True)
    touched = {}
    base = '7ffc77b'
    for f, old, new in spec['edits']:
        p = wt + '/' + f
        t = open(p).read()
        if t.count(old) != 1:
            sys.exit('%s: %d matches in %s of %r' % (sid, t.count(old), f, old))
        open(p, 'w').write(t.replace(old, new))
    r = run(['gofmt', '-l'] + sorted({f for f, _, _ in spec['edits']}), wt)
    diff = run(['git', 'diff'], wt).stdout
    # changed lines must come from the original repository
    b = run(['git', 'diff', '-U0'], wt).stdout
    cur = None; bad = []
    for l in b.splitlines():
        if l.startswith('--- a/'): cur = l[6:]
        m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
        if m:
            n = int(m.group(2) or 1)
            for ln in range(int(m.group(1)), int(m.group(1)) + n):
                bl = run(['git', 'blame', '-s', '-L', '%d,%d' % (ln, ln), 'HEAD', '--', cur], wt).stdout
                if not bl.startswith('^') : bad.append((cur, ln, bl.strip()))
    if bad: sys.exit('%s: changes added lines %s' % (sid, bad))
    r = run(['go', 'build', './...'], wt, env)
    if r.returncode: sys.exit(sid + ': does not build\n' + r.stdout)
    want = set(json.load(open('/opt/vp/BASELINE.json')).get('passing', []) or [])
    os.makedirs(tmp + '/d')
    open(tmp + '/d/demo.sh', 'w').write(DEMO % {'dir': pkg}); os.chmod(tmp + '/d/demo.sh', 0o755)
    open(tmp + '/d/demo_test.go.txt', 'w').write(spec['demo'])
    r1 = run([tmp + '/d/demo.sh'], '/repo', env)
    r2 = run([tmp + '/d/demo.sh'], wt, env)
    if r1.returncode != 0: sys.exit(sid + ': demo fails on the unchanged tree\n' + r1.stdout[-3000:])
    if r2.returncode == 0: sys.exit(sid + ': demo passes on the patched tree\n' + r2.stdout[-3000:])
    if 'build failed' in r2.stdout or 'setup failed' in r2.stdout: sys.exit(sid + ': demo does not build\n' + r2.stdout)
    # the stable tests
    fails = []
    r = run(['go', 'test', '-v', './...'], wt, env)
    passed = set(re.findall(r'--- PASS: (\S+)', r.stdout))
    r0 = run(['go', 'test', '-v', './...'], '/repo', env)
    p0 = set(re.findall(r'--- PASS: (\S+)', r0.stdout))
    if p0 - passed: sys.exit(sid + ': tests break: %s' % (p0 - passed))
    run(['git', 'checkout', '--', '.'], '/repo') if False else None
    os.makedirs(out, exist_ok=True)
    open(out + '/patch.diff', 'w').write(diff)
    shutil.copy(tmp + '/d/demo.sh', out + '/demo.sh')
    shutil.copy(tmp + '/d/demo_test.go.txt', out + '/demo_test.go.txt')
    json.dump({'property': spec['property'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(out + '/meta.json', 'w'), indent=1)
    print(sid, 'ok;', [l for l in r2.stdout.splitlines() if 'demo' in l][:2])
finally:
    shutil.rmtree(tmp)
