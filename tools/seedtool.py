"""python3 tools/seedtool.py ID  -- validates seeded/ID in a scratch copy of /repo: builds, stable tests, demo with and without the patch, then runs the checks on it.
python3 tools/seedtool.py --new ID 'PROP' FILE <<< spec   (spec: old text, a line '=====', new text; several separated by '#####')"""
import sys, os, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/sw'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def prepare():
    if not os.path.exists(W): sh('cp -a /repo %s' % W)
    sh('git checkout -q -- . && git clean -fdq -e target', cwd=W)
    h = sh('git rev-parse HEAD', cwd='/repo').stdout.strip()
    if sh('git rev-parse HEAD', cwd=W).stdout.strip() != h: print(sh('git fetch -q /repo && git checkout -q %s' % h, cwd=W).stderr)
    for s in ('build', 'test'):
        t = open('/opt/vp/%s.sh' % s).read().replace('/opt/vp/build.sh', W + '.build.sh').replace('/repo', W)
        open(W + '.%s.sh' % s, 'w').write(t)
def validate(i, checks=True):
    prepare()
    d = os.path.join(V, 'seeded', i)
    sh('rm -rf /tmp/swdemo; mkdir -p /tmp/swdemo; cp -r %s/. /tmp/swdemo; rm -f /tmp/swdemo/patch.diff /tmp/swdemo/meta.json' % d)
    r = sh('bash %s.build.sh' % W)
    r = sh('bash /tmp/swdemo/demo.sh', cwd=W)
    if r.returncode: print('DEMO FAILS ON BASE', r.stdout[-1500:], r.stderr[-500:]); return False
    r = sh('git apply %s/patch.diff' % d, cwd=W)
    if r.returncode: print('patch does not apply', r.stderr); return False
    r = sh('bash %s.test.sh /tmp/sw.o.json' % W)
    o = json.load(open('/tmp/sw.o.json')); b = json.load(open('/opt/vp/BASELINE.json'))['stable']
    miss = [x for x in b if x not in o['passed']]
    if miss: print('TESTS BREAK', miss[:5], sh("grep -E '^error|panicked' -A6 %s/target/vp-test.log | head -30" % W).stdout, r.stderr[-600:]); return False
    r = sh('bash /tmp/swdemo/demo.sh', cwd=W)
    if r.returncode == 0: print('DEMO PASSES WITH PATCH'); return False
    print('demo with patch:', r.returncode, r.stdout[-600:])
    if checks: runchecks(i)
    return True
def runchecks(i, only=None):
    m = json.load(open(os.path.join(V, 'MANIFEST.json')))
    env = dict(os.environ, LUAFMT_REPO=W, LUAFMT_CACHE='/tmp/swcache', LUAFMT_EVIDENCE='/tmp/swev')
    prop = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))['property'] if i else None
    hit = []
    for c in m['checks']:
        if only and c['property'] not in only: continue
        r = sh(c['quick_cmd'], cwd=V, env=env)
        if r.returncode: hit.append(c['property'])
        vs = [l for l in r.stdout.splitlines() if l.strip()]
        if r.returncode or 'undecided' in r.stdout: print(c['property'], r.returncode, '|', '\n     '.join(x[:300] for x in vs[:4]), r.stderr[-300:])
    print('caught by', hit, 'own property %s: %s' % (prop, prop in hit))
    return hit
if __name__ == '__main__':
    if sys.argv[1] == '--new':
        i, prop, f = sys.argv[2:5]
        prepare()
        d = os.path.join(V, 'seeded', i); os.makedirs(d, exist_ok=True)
        for spec in sys.stdin.read().split('#####\n'):
            p = os.path.join(W, f)
            if spec.startswith('FILE '): fl, spec = spec.split('\n', 1); p = os.path.join(W, fl[5:].strip())
            old, new = spec.split('=====\n')
            t = open(p).read()
            if t.count(old) != 1: print('old text found', t.count(old), 'times'); sys.exit(1)
            open(p, 'w').write(t.replace(old, new))
        open(os.path.join(d, 'patch.diff'), 'w').write(sh('git diff', cwd=W).stdout)
    elif sys.argv[1] == '--checks': runchecks(None, sys.argv[2:] or None)
    elif sys.argv[1] == '--all':
        for i in sorted(os.listdir(os.path.join(V, 'seeded'))): print('==', i); validate(i)
    else: validate(sys.argv[1])
