#!/usr/bin/env python3
"""batch.py SPEC.py [name...]: apply each variant of a spec in a scratch copy of
/repo, check that it compiles, and run the checks on it.
A variant is dict(name=, edits=[(file, old, new[, n])], expect=[ids] or [] for a
refactoring).  Environment: CHECKS=C04,C05 limits the checks, T=1 runs the tests of the
package, V=1 prints the reports."""
import sys, os, subprocess, shutil, json, concurrent.futures as cf, tempfile, runpy
spec = runpy.run_path(sys.argv[1])['V']
names = sys.argv[2:]
vcol = os.environ.get('VCOL', '/tmp/vcol')
allc = [c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']]
checks = os.environ.get('CHECKS', ','.join(allc)).split(',')
env = dict(os.environ)
for l in subprocess.run(['bash', '-c', '. /opt/vp/env.sh; env'], capture_output=True, text=True).stdout.split('\n'):
    if '=' in l:
        k, v = l.split('=', 1); env[k] = v

def one(v):
    d = tempfile.mkdtemp(prefix='vb.')
    out = []
    try:
        r = d + '/repo'
        subprocess.run(['cp', '-a', '/repo', r], check=True)
        for e in v['edits']:
            f, old, new = e[:3]
            p = r + '/' + f
            s = open(p).read() if os.path.exists(p) else ''
            if old == '':
                s += new
            elif len(e) > 3:
                parts = s.split(old); n = e[3]
                if n == 'all': s = new.join(parts)
                else:
                    if len(parts) <= n: return v, 'EDIT FAILED ' + old[:50], {}
                    s = old.join(parts[:n]) + new + old.join(parts[n:])
            else:
                if s.count(old) != 1: return v, 'EDIT FAILED (%d) %s' % (s.count(old), old[:50]), {}
                s = s.replace(old, new)
            open(p, 'w').write(s)
        b = subprocess.run(['go', 'build', './...'], cwd=r, env=env, capture_output=True, text=True)
        if b.returncode: return v, 'BUILD FAILED ' + b.stderr[:400], {}
        note = ''
        if os.environ.get('T'):
            b = subprocess.run(['go', 'test', './...'], cwd=r, env=env, capture_output=True, text=True)
            note = 'tests ' + ('pass' if b.returncode == 0 else 'FAIL: ' + ' '.join(x for x in b.stdout.split('\n') if '--- FAIL' in x)[:200])
        mv = d + '/v'; os.makedirs(mv + '/evidence')
        shutil.copy(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known-findings.txt'), mv)
        res = {}
        for c in checks:
            try:
                q = subprocess.run([vcol, 'check', c, '--repo=' + r, '--verif=' + mv], capture_output=True, text=True, timeout=900)
                if q.returncode: res[c] = (q.returncode, '\n'.join(x[:300] for x in (q.stdout + q.stderr).split('\n') if x and not x.startswith('    key') and not x.startswith('VIOLATION'))[:1200])
            except subprocess.TimeoutExpired:
                res[c] = (99, 'timeout')
        return v, note, res
    finally:
        shutil.rmtree(d)

todo = [v for v in spec if not names or any(n in v['name'] for n in names)]
bad = 0
with cf.ThreadPoolExecutor(int(os.environ.get('P', '4'))) as ex:
    for v, note, res in ex.map(one, todo):
        exp = v.get('expect', [])
        ok = (not res and not exp and 'FAILED' not in note) or (exp and any(c in res for c in exp))
        bad += not ok
        print('%s %-28s %s %s' % ('ok  ' if ok else '**  ', v['name'], sorted(res), note))
        if os.environ.get('V') or (not exp and res):
            for c in res: print('      ', c, res[c][1].replace('\n', '\n        '))
print(len(todo), 'variants,', bad, 'unexpected')
