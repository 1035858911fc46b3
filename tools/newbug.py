"""newbug.py <file.py>...: make planted bugs under seeded/ from descriptions.

A description sets ID, PROP, EDITS = [(file, old, new)], PKG, DEMO (body of a Go test file of
the package, without the package clause), NEEDS, BREAKS. The bug is kept only if the changed
tree builds and passes the repository's tests, and the demonstration fails with it and passes
without it. With -c the property's check is run on it as well (in the scratch copy)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# runs a test of package %(pkg)s laid over the tree in the current directory
d=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
. /opt/vp/env.sh >/dev/null 2>&1
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(pkg)s/zz_planted_demo_test.go" "$d/demo_test.go.txt" >"$tmp/overlay.json"
go test -overlay "$tmp/overlay.json" -count=1 -timeout 120s -run '^TestPlantedDemo$' ./%(pkg)s
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; ' + cmd], cwd=cwd, capture_output=True, text=True, **kw)


def main():
    files = [a for a in sys.argv[1:] if not a.startswith('-')]
    for f in files:
        ns = {}
        exec(open(f).read(), ns)
        tmp = tempfile.mkdtemp(prefix='bug-')
        try:
            one(ns, tmp, '-c' in sys.argv)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


def one(ns, tmp, check):
    rc = os.path.join(tmp, 'repo')
    subprocess.run(['cp', '-a', '/repo', rc], check=True)
    for file, old, new in ns['EDITS']:
        p = os.path.join(rc, file)
        s = open(p).read()
        if s.count(old) != 1:
            print(ns['ID'], 'edit matches', s.count(old), 'times in', file)
            return
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', 'diff'], cwd=rc, capture_output=True, text=True).stdout
    d = os.path.join(tmp, 'seed')
    os.makedirs(d)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH % {'pkg': ns['PKG']})
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'demo_test.go.txt'), 'w').write('package %s\n\n%s' % (ns['PKG'].rsplit('/')[-1], ns['DEMO'].lstrip('\n')))
    json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    r = sh('go build ./... && go vet ./... >/dev/null 2>&1; go test -count=1 ./... 2>&1', rc)
    if r.returncode != 0:
        print(ns['ID'], 'tests fail with the change:\n', r.stdout[-1500:], r.stderr[-500:])
        return
    a = sh('bash %s/demo.sh' % d, '/repo')
    b = sh('bash %s/demo.sh' % d, rc)
    if a.returncode != 0 or b.returncode == 0:
        print(ns['ID'], 'demo: unchanged', a.returncode, 'changed', b.returncode, '\n', a.stdout[-1500:], a.stderr[-800:], b.stdout[-800:])
        return
    out = os.path.join(V, 'seeded', ns['ID'])
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(d, out)
    print(ns['ID'], 'kept', flush=True)
    if check:
        env = dict(os.environ, VERIF_REPO=rc)
        import time
        t0 = time.time()
        r = subprocess.run(['python3-vt', os.path.join(V, 'engine', 'check.py'), ns['PROP'], 'quick'], cwd=V, env=env, capture_output=True, text=True)
        print('   check exit %d in %.0f s: %s' % (r.returncode, time.time() - t0, (r.stdout + r.stderr)[-700:]), flush=True)


main()
