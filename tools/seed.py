#!/usr/bin/env python3
"""seed.py DIR [check...]: confirm the planted bug in DIR and show which checks catch it.

DIR holds edits.py (a list EDITS of (file, old, new[, n])), demo.sh (with the files it needs) and meta.json.
The edits are applied to a scratch copy of /repo; the copy must build, pass the
stable tests and fail the demo, /repo itself must pass it. patch.diff is then written.
"""
import sys, subprocess, os, shutil, json, tempfile
d = os.path.abspath(sys.argv[1]); checks = sys.argv[2:]
fast = os.environ.get('FAST')
ns = {}
edits = None
if os.path.exists(d + '/edits.py'):
    exec(open(d + '/edits.py').read(), ns); edits = ns['EDITS']
w = tempfile.mkdtemp(prefix='seed')
r = w + '/repo'
subprocess.run(['cp', '-a', '/repo', r], check=True)
env = dict(os.environ, GOFLAGS='-mod=readonly')
def sh(cmd, cwd=r, **k):
    return subprocess.run(['bash', '-c', '. /opt/vp/env.sh; ' + cmd], cwd=cwd, capture_output=True, text=True, **k)
try:
    if edits is not None:
        for e in edits:
            f, old, new = e[:3]
            p = r + '/' + f; s = open(p).read()
            if len(e) > 3:
                parts = s.split(old); n = e[3]
                assert len(parts) > n, ('occurrence', f, old)
                s = old.join(parts[:n]) + new + old.join(parts[n:])
            else:
                assert s.count(old) == 1, ('count', s.count(old), f, old)
                s = s.replace(old, new)
            open(p, 'w').write(s)
        sh('gofmt -l pkg cmd')
        diff = sh('git diff').stdout
        open(d + '/patch.diff', 'w').write(diff)
    else:
        a = sh('git apply %s/patch.diff' % d); assert a.returncode == 0, a.stderr
    # a removed line has to be of the base commit
    b = sh('go build ./... && go vet ./pkg/... 2>&1 | head -5')
    if b.returncode: print('BUILD FAILS', b.stderr); sys.exit(1)
    if not fast:
        base = json.load(open('/opt/vp/BASELINE.json'))
        t = sh('go test -json ./... 2>/dev/null')
        failed = set()
        for l in t.stdout.splitlines():
            try: j = json.loads(l)
            except Exception: continue
            if j.get('Action') == 'fail': failed.add(j.get('Package', '') + '::' + j.get('Test', ''))
        if failed: print('TESTS FAIL', sorted(failed)[:10])
        else: print('tests pass')
    dd = w + '/demo'; shutil.copytree(d, dd)
    for x in os.listdir(dd):
        if x.endswith(('.diff', '.patch')) or x in ('meta.json', 'edits.py'): os.remove(dd + '/' + x)
    g = sh(dd + '/demo.sh', cwd='/repo')
    print('demo on unchanged tree: exit', g.returncode)
    if g.returncode: print(g.stdout[-1500:], g.stderr[-500:])
    g = sh(dd + '/demo.sh')
    print('demo with the bug: exit', g.returncode)
    print((g.stdout + g.stderr)[:600])
    os.makedirs('/tmp/mv/evidence', exist_ok=True)
    if os.path.exists('/verif/known-findings.txt'): shutil.copy('/verif/known-findings.txt', '/tmp/mv/')
    for c in checks:
        k = subprocess.run(['/tmp/vcol', 'check', c, '--repo=' + r, '--verif=/tmp/mv'], capture_output=True, text=True)
        print(c, 'exit', k.returncode); print((k.stdout + k.stderr)[:int(os.environ.get('N', '500'))])
finally:
    shutil.rmtree(w)
