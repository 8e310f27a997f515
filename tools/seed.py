#!/usr/bin/env python3
"""seed.py ID...: tries planted bugs: applies each patch to the repository, builds, runs its tests, the
demonstration and the property's check, and undoes it.  seed.py -new ID PROPERTY NEEDS BREAKS < main.go
records the repository's uncommitted change as a planted bug."""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Exits 0 if the working tree (the current directory) behaves as the property says.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build GOTOOLCHAIN=local \\
  GOPROXY=off GOWORK=off GO111MODULE=on GOFLAGS='-mod=mod -buildvcs=false' CGO_ENABLED=0 PATH=/opt/veriftools/go1.27.3/bin:$PATH
unset GOROOT
cp "$here"/main.go "$tmp"/
cp "$repo"/go.sum "$tmp"/
cat > "$tmp"/go.mod <<END
module demo

go 1.24

require github.com/batchatco/go-native-netcdf v0.0.0

require github.com/batchatco/go-thrower v0.0.0-20200827035905-5cb7337f6be6 // indirect

replace github.com/batchatco/go-native-netcdf => $repo
END
cd "$tmp" && go build -o demo . && ./demo "$tmp"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def revert():
    sh('git -C /repo checkout -- .')


def trybug(b, checks=True):
    d = os.path.join(V, 'seeded', b)
    meta = json.load(open(d + '/meta.json'))
    r = {'bug': b, 'property': meta['property']}
    if sh('git -C /repo status --porcelain').stdout.strip():
        sys.exit('/repo is not clean')
    r['demo_clean'] = sh('timeout 300 bash %s/demo.sh' % d, cwd='/repo').returncode
    a = sh('git -C /repo apply %s/patch.diff' % d)
    if a.returncode:
        r['apply'] = a.stderr
        return r
    try:
        bl = sh('bash /opt/vp/build.sh')
        r['build'] = bl.returncode
        t = sh('bash /opt/vp/test.sh /tmp/seedtest.json')
        r['tests'] = t.stdout.strip().splitlines()[-1:]
        x = sh('timeout 300 bash %s/demo.sh' % d, cwd='/repo')
        r['demo_bug'] = x.returncode
        r['demo_out'] = (x.stdout + x.stderr)[-300:]
        if checks:
            for p in [meta['property']] + meta.get('also', []):
                c = sh('python3 tools/check.py ' + p, cwd=V, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
                ok = c.returncode == 1 and 'VIOLATION property=%s ' % p in c.stdout
                r['check ' + p] = 'CAUGHT' if ok else 'missed (rc %d)' % c.returncode
                r['how ' + p] = [l.strip()[:200] for l in c.stdout.splitlines() if l.startswith('  ')][:2]
    finally:
        revert()
    return r


if len(sys.argv) > 1 and sys.argv[1] == '-new':
    _, _, b, p, needs, breaks = sys.argv
    d = os.path.join(V, 'seeded', b)
    os.makedirs(d, exist_ok=True)
    diff = sh('git -C /repo diff').stdout
    assert diff
    open(d + '/patch.diff', 'w').write(diff)
    revert()
    main = sys.stdin.read()
    if main.startswith('#!'):
        open(d + '/demo.sh', 'w').write(main)
    else:
        open(d + '/main.go', 'w').write(main)
        open(d + '/demo.sh', 'w').write(DEMO)
    json.dump({'property': p, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    print(json.dumps(trybug(b), indent=1))
else:
    args = [a for a in sys.argv[1:] if a[0] != '-'] or sorted(os.listdir(os.path.join(V, 'seeded')))
    for b in args:
        r = trybug(b, '-n' not in sys.argv)
        print(json.dumps(r, indent=1) if '-v' in sys.argv else json.dumps({k: v for k, v in r.items() if not k.startswith(('how', 'demo_out'))}), flush=True)
