#!/usr/bin/env python3
"""Validate planted bugs: seedcheck.py [--check] ID...
Each is tried in a scratch copy of /repo: the patch applies and only changes
lines of the original repository, the code builds, the stable tests pass, and
demo.sh exits 0 without and nonzero with the patch.  With --check the
property's quick check is also run against /repo with the patch applied (and
undone straight afterwards)."""
import json, os, re, shutil, subprocess, sys, tempfile, time
BASE = '0e9e113'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME='/root', PATH='/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
           GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build', GOTOOLCHAIN='local',
           GOWORK='off', GO111MODULE='on', GOPROXY='off', GOFLAGS='-mod=mod')
def sh(cmd, cwd, timeout=300):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout, shell=isinstance(cmd, str))
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'
def stable(cwd):
    want = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    out = os.path.join(cwd, '.git', 'out.json')
    rc, log = sh('go test -json -vet=off -count=1 -p 1 -timeout 10m ./... > %s.log; python3 /opt/vp/results.py %s gojson:%s.log' % (out, out, out), cwd, 600)
    got = json.load(open(out))
    passed = set(got['passed'])
    return want - passed
def one(i, tmp, check):
    d = os.path.join(HERE, 'seeded', i)
    meta = json.load(open(d + '/meta.json'))
    patch = d + '/patch.diff'
    r = tmp + '/repo'
    sh('git checkout -q -- .', r)
    # lines changed are original ones
    text = open(patch).read()
    for f, body in re.findall(r'^--- a/(\S+)\n\+\+\+ \S+\n((?:@@.*\n(?:[ +\-\\].*\n|\n)*)+)', text, re.M):
        blame = sh(['git', 'blame', '-s', f], r)[1].splitlines()
        assert not f.endswith('_test.go')
        removed = 0
        for start, hunk in re.findall(r'@@ -(\d+)\S* .*\n((?:[ +\-\\].*\n|\n)*)', body):
            n = int(start)
            for l in hunk.splitlines():
                if l.startswith('-'):
                    removed += 1
                    if not blame[n-1].startswith('^'):
                        return i, 'BAD: removes a line of a fix: ' + l
                if not l.startswith('+') and not l.startswith('\\'): n += 1
        if not removed: print(i, 'note: only adds lines in', f)
    demo = tmp + '/demo'
    shutil.rmtree(demo, ignore_errors=True)
    shutil.copytree(d, demo, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
    rc, out = sh(['bash', demo + '/demo.sh'], r)
    if rc: return i, 'BAD: demo fails on the unchanged tree: ' + out[-1500:]
    rc, out = sh(['git', 'apply', patch], r)
    if rc: return i, 'BAD: does not apply: ' + out
    rc, out = sh('go build ./...', r)
    if rc: return i, 'BAD: does not build: ' + out[-800:]
    t0 = time.time()
    rc, out = sh(['bash', demo + '/demo.sh'], r)
    dt = time.time() - t0
    if rc == 0: return i, 'BAD: demo passes with the patch'
    why = [l for l in out.splitlines() if '.go:' in l or 'panic' in l or 'DATA RACE' in l][:1]
    bad = stable(r)
    if bad:
        print(i, 'BAD: tests fail', sorted(bad)[:4])
        return i, 'BAD: stable tests fail: %s' % sorted(bad)[:4]
    sh('git checkout -q -- .', r)
    res = 'ok (demo %.0fs rc=%d%s)' % (dt, rc, ': ' + why[0].strip()[:110] if why else '')
    if check:
        sh(['git', 'apply', patch], '/repo')
        try:
            t0 = time.time()
            p = subprocess.run(['bin/check', meta['property']], cwd=HERE, capture_output=True, text=True, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
            v = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION property=%s ' % meta['property'])]
            res += '; check %s rc=%d %.0fs %s' % (meta['property'], p.returncode, time.time() - t0, 'CAUGHT' if p.returncode == 1 and v else 'MISSED ' + p.stdout[-200:])
        finally:
            sh(['git', 'checkout', '--', '.'], '/repo')
    return i, res
if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    check = '--check' in sys.argv
    if not args: args = sorted(os.listdir(HERE + '/seeded'))
    tmp = tempfile.mkdtemp(prefix='seedcheck')
    try:
        subprocess.run(['cp', '-a', '/repo', tmp + '/repo'], check=True)
        sh('git checkout -q -- .', tmp + '/repo')
        for a in args:
            print(*one(a, tmp, check), flush=True)
    finally:
        shutil.rmtree(tmp)
