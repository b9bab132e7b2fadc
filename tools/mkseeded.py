"""Plants bugs: makes /verif/seeded/<id>/ from the definitions in seeded_defs.py, after confirming
(in a scratch copy of /repo) that each builds, passes the stable tests, and that its demo tells it apart."""
import json, os, shutil, subprocess, sys, textwrap
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeded_defs import BUGS
OUT = '/verif/seeded'
DEMO = '''#!/bin/bash
# Exit 0: the behaviour is as it should be; nonzero: it is not. Run in the repository's root.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cp "$here/demo.go.txt" "$t/main.go"
cp "$repo/go.sum" "$t/go.sum"
cat > "$t/go.mod" <<EOF
module demo

go 1.19

require github.com/ilius/go-table v0.0.0

require github.com/ilius/go-lru v0.1.0

replace github.com/ilius/go-table => $repo
EOF
cd "$t" || exit 3
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
go build %s -o demo . || exit 3
%s timeout 100 ./demo
'''

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)

def main(ids):
    base = json.load(open('/opt/vp/BASELINE.json'))
    for b in BUGS:
        if ids and b['id'] not in ids:
            continue
        d = os.path.join(OUT, b['id'])
        if not ids and os.path.exists(d + '/patch.diff'):
            continue
        w = '/tmp/plant-' + b['id']
        shutil.rmtree(w, ignore_errors=True)
        shutil.copytree('/repo', w, symlinks=True)
        try:
            os.makedirs(d, exist_ok=True)
            open(d + '/demo.go.txt', 'w').write(b['demo'].lstrip('\n'))
            open(d + '/demo.sh', 'w').write(DEMO % (b.get('build', ''), b.get('env', 'LC_ALL=C RUNEWIDTH_EASTASIAN=0')))
            os.chmod(d + '/demo.sh', 0o755)
            r = sh(['bash', d + '/demo.sh'], w)
            if r.returncode != 0:
                print(b['id'], 'DEMO FAILS ON CLEAN', r.stdout[-500:], r.stderr[-1500:]); continue
            for f, old, new in b['edits']:
                s = open(w + '/' + f).read()
                assert s.count(old) >= 1, (b['id'], f, old)
                assert s.count(old) == 1 or b.get('first'), (b['id'], 'ambiguous', f, old)
                open(w + '/' + f, 'w').write(s.replace(old, new, 1))
            r = sh('go build ./... && go vet . ./runewidth ./runewidth/uniseg', w)
            if r.returncode != 0:
                print(b['id'], 'BUILD', r.stderr[-1500:]); continue
            r = sh('go test ./...', w)
            if r.returncode != 0:
                print(b['id'], 'TESTS FAIL', r.stdout[-1500:]); continue
            r = sh(['bash', d + '/demo.sh'], w)
            if r.returncode in (0, 3):
                print(b['id'], 'DEMO DOES NOT FAIL', r.returncode, r.stdout[-500:], r.stderr[-1500:]); continue
            p = sh('git diff', w).stdout
            open(d + '/patch.diff', 'w').write(p)
            json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
            print(b['id'], 'ok:', (r.stdout + r.stderr).strip().split('\n')[0][:150])
        finally:
            shutil.rmtree(w, ignore_errors=True)

main(sys.argv[1:])
