#!/usr/bin/env python3
"""mkseed.py [ID...]: builds /verif/seeded/<id> from the definitions in defs*.py,
confirming each in a scratch copy: builds, the 616 stable tests pass, the
demonstration succeeds without the patch and fails with it."""
import json, os, re, shutil, subprocess, sys, glob
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(os.path.dirname(H))
SC = '/tmp/seedrepo'
ENV = '. /opt/vp/env.sh; cd %s; ' % SC
DEMO = '''#!/bin/bash
# Run with cwd /repo.
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
go build %s-o "$t/demo" "$d/demo.go" "$d/lib.go" || exit 3
cd "$t" && timeout 120 ./demo
'''

def sh(c, **kw):
    return subprocess.run(['bash', '-c', ENV + c], capture_output=True, text=True, **kw)

base = json.load(open('/opt/vp/BASELINE.json'))
def stable():
    ids = base.get('stable') or base.get('passed') or base.get('tests')
    return set(ids)

def tests_ok():
    p = sh('go build ./... && go test -json -vet=off -count=1 -timeout 5m ./... > /tmp/seed-test.jsonl; python3 /opt/vp/results.py /tmp/seed-out.json gojson:/tmp/seed-test.jsonl')
    r = json.load(open('/tmp/seed-out.json'))
    passed = set(r.get('passed', []))
    miss = stable() - passed
    return not miss, sorted(miss)[:5]

def main():
    defs = {}
    for f in sorted(glob.glob(H + '/defs*.py')):
        ns = {'H': H}
        exec(open(f).read(), ns)
        for d in ns['SEEDS']:
            defs[d['id']] = d
    want = sys.argv[1:] or [i for i in defs if not os.path.isdir(V + '/seeded/' + i)]
    for i in want:
        d = defs[i]
        shutil.rmtree(SC, ignore_errors=True)
        shutil.copytree('/repo', SC, symlinks=True)
        out = V + '/seeded/' + i
        tmp = '/tmp/seedout'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        open(tmp + '/demo.go', 'w').write(d['demo'])
        shutil.copy(H + '/lib.go', tmp + '/lib.go')
        open(tmp + '/demo.sh', 'w').write(DEMO % ('-race ' if d.get('race') else ''))
        os.chmod(tmp + '/demo.sh', 0o755)
        p = sh('bash %s/demo.sh' % tmp)
        if p.returncode != 0:
            print(i, 'DEMO FAILS ON UNCHANGED TREE', p.returncode, p.stdout[-800:], p.stderr[-800:]); continue
        bad = False
        for f, old, new in d['edits']:
            s = open(SC + '/' + f).read()
            if s.count(old) != 1:
                print(i, 'edit matches', s.count(old), 'times in', f, repr(old[:60])); bad = True; break
            open(SC + '/' + f, 'w').write(s.replace(old, new))
        if bad: continue
        sh('gofmt -w ' + ' '.join(sorted({e[0] for e in d['edits']})))
        ok, miss = tests_ok()
        if not ok:
            print(i, 'CAUGHT BY TESTS (or does not build)', miss, sh('go build ./...').stderr[:500]); continue
        p = sh('bash %s/demo.sh' % tmp)
        if p.returncode in (0, 3):
            print(i, 'DEMO PASSES WITH PATCH' if p.returncode == 0 else 'DEMO DOES NOT BUILD', p.stdout[-300:], p.stderr[-500:]); continue
        diff = sh('git diff').stdout
        open(tmp + '/patch.diff', 'w').write(diff)
        json.dump({'property': d['prop'], 'needs': d['needs'], 'what_it_breaks': d['what']}, open(tmp + '/meta.json', 'w'), indent=1)
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(tmp, out)
        print(i, 'ok:', (p.stdout + p.stderr).strip().splitlines()[0][:150] if (p.stdout + p.stderr).strip() else 'rc %d' % p.returncode)
    shutil.rmtree(SC, ignore_errors=True)

main()
