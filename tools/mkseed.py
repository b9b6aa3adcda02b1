#!/usr/bin/env python3
"""mkseed.py SPEC...: builds /verif/seeded/<id> from a Python spec file and verifies it in a scratch copy of /repo.

A spec defines: id, property, needs, breaks, edits=[(file, old, new)...], pkg (package directory of the demonstration)
and test (Go source of an in-package test file), optionally race=True.
Checked: the patch touches lines of the original repository only, builds, passes the stable tests, and the demonstration
passes without and fails with it.
"""
import json, os, re, subprocess, sys

SCRATCH = '/tmp/w/seed'
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'])
for k in ('PG_HOST', 'VAULT_ADDRESS', 'DYDB_ENDPOINT_URL', 'ESDB_IP_ADDR'):
    ENV.pop(k, None)

DEMO = '''#!/bin/bash
# Runs seed_test.go inside %(pkg)s: passes on the unchanged tree, fails with the patch.
D=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
O=$(mktemp)
trap 'rm -f "$O"' EXIT
printf '{"Replace": {"%%s/%(pkg)s/zz_seed_demo_test.go": "%%s/seed_test.go"}}' "$PWD" "$D" > "$O"
timeout 280 go test -overlay "$O" -vet=off -count=1 %(race)s-timeout 240s -run '^TestSeedDemo' ./%(pkg)s
'''

def sh(*a, cwd=SCRATCH, check=True, timeout=900):
    r = subprocess.run(a, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout)
    if check and r.returncode:
        raise SystemExit('FAILED %s\n%s\n%s' % (a, r.stdout[-3000:], r.stderr[-3000:]))
    return r

def main(spec):
    ns = {}
    exec(open(spec).read(), ns)
    sid = ns['id']
    if not os.path.isdir(SCRATCH):
        sh('cp', '-a', '/repo', SCRATCH, cwd='/tmp')
    sh('git', 'checkout', '-q', '--', '.')
    if sh('git', 'rev-parse', 'HEAD').stdout != sh('git', 'rev-parse', 'HEAD', cwd='/repo').stdout:
        sh('git', 'fetch', '-q', '/repo'); sh('git', 'reset', '-q', '--hard', 'FETCH_HEAD')
    base = sh('git', 'rev-list', '--max-parents=0', 'HEAD').stdout.strip()
    for f, old, new in ns['edits']:
        p = os.path.join(SCRATCH, f)
        s = open(p).read()
        if s.count(old) != 1:
            raise SystemExit('%s: %d matches of %r' % (f, s.count(old), old))
        open(p, 'w').write(s.replace(old, new))
    sh('gofmt', '-l', '.')
    diff = sh('git', 'diff').stdout
    sh('go', 'build', './...')
    # lines changed must be original
    d0 = sh('git', 'diff', '-U0').stdout
    f = None; nminus = 0
    for line in d0.splitlines():
        m = re.match(r'--- a/(.*)', line)
        if m: f = m.group(1)
        m = re.match(r'@@ -(\d+)(?:,(\d+))? ', line)
        if m:
            a, n = int(m.group(1)), int(m.group(2) or 1)
            if n == 0: continue
            nminus += n
            b = sh('git', 'blame', '-s', '-l', '-L', '%d,+%d' % (a, n), 'HEAD', '--', f).stdout
            for bl in b.splitlines():
                if not bl.startswith('^' + base[:39]) and not bl.startswith(base) and bl.split(')', 1)[1].strip():
                    print('NOT ORIGINAL:', f, bl)
    if not nminus: print('WARNING: only adds lines')
    D = '/verif/seeded/' + sid
    os.makedirs(D, exist_ok=True)
    open(D + '/patch.diff', 'w').write(diff)
    open(D + '/seed_test.go', 'w').write(ns['test'].lstrip('\n'))
    open(D + '/demo.sh', 'w').write(DEMO % dict(pkg=ns['pkg'], race='-race ' if ns.get('race') else ''))
    os.chmod(D + '/demo.sh', 0o755)
    json.dump(dict(property=ns['property'], needs=ns['needs'], what_it_breaks=ns['breaks']), open(D + '/meta.json', 'w'), indent=1)
    # with the patch
    bad = sh(D + '/demo.sh', check=False)
    pk = [p for p in sh('go', 'list', './...').stdout.split() if not re.search(r'rangedb/(pkg/broadcast|pkg/rangedbui|pkg/rangedbws|provider/remotestore)$', p)]
    log = '/tmp/w/seed.log'
    r = sh('go', 'test', '-json', '-vet=off', '-count=1', '-timeout', '2m', *pk, check=False)
    open(log, 'w').write(r.stdout)
    sh('python3', '/opt/vp/results.py', '/tmp/w/seed.json', 'gojson:' + log, check=False)
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    res = {}
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get('Test') and e['Action'] in ('pass', 'fail', 'skip'):
            res[e['Package'] + '/' + e['Test']] = e['Action']
    broken = sorted(t for t in stable if res.get(t) != 'pass')
    rc = subprocess.run(['/verif/bin/rdbcheck', '-repo', SCRATCH, '-verif', '/tmp/w/ev', '-prop', ns['property']], capture_output=True, text=True)
    sh('git', 'checkout', '-q', '--', '.')
    good = sh(D + '/demo.sh', check=False)
    ok = bad.returncode and not good.returncode and not broken
    print(sid, 'OK' if ok else 'BAD', 'demo patched rc=%d clean rc=%d' % (bad.returncode, good.returncode), 'broken tests:', broken[:5], 'check rc=%d %s' % (rc.returncode, [l for l in rc.stdout.splitlines() if 'rule/construct' in l][:3]))
    if not bad.returncode or good.returncode:
        print('--patched', (bad.stdout + bad.stderr)[-1500:], '--clean', (good.stdout + good.stderr)[-1500:])

for s in sys.argv[1:]:
    main(s)
