#!/usr/bin/env python3
"""check.py ID [--thorough]: decides property ID on /repo's current tree by static analysis. Exit 0 held, 1 violated."""
import os, sys, time, json, pickle, hashlib, glob
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'engine'))
sys.path.insert(0, os.path.join(VERIF, 'checks'))
sys.setrecursionlimit(20000)
import extract, importlib

class Ctx:
    def __init__(self, tier):
        self.tier = tier
        self.deep = tier == 'thorough'
        self.outdir = extract.extract()
        self._prog = None
    @property
    def prog(self):
        if self._prog is None:
            from ai import Prog
            self._prog = Prog(self.outdir)
        return self._prog
    @property
    def grammar(self):
        from grammar import Grammar
        if not hasattr(self, '_g'): self._g = Grammar(self.prog)
        return self._g
    def stamp(self):
        """identifies the analysed tree and the analyser"""
        h = hashlib.sha256()
        # the dump itself, not the source text: comments and layout do not matter
        for f in sorted(glob.glob(os.path.join(self.outdir, '*'))):
            if f.endswith('stamp'): continue
            h.update(f.encode()); h.update(open(f, 'rb').read())
        for f in sorted(glob.glob(os.path.join(VERIF, 'engine', '*.py')) + glob.glob(os.path.join(VERIF, 'checks', '*.py'))):
            h.update(open(f, 'rb').read())
        return h.hexdigest()[:24]
    def cached(self, name, fn):
        """results of an analysis several checks use"""
        d = os.path.join(extract.CACHE, 'results')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%s.pkl' % (name, self.stamp()))
        if os.path.exists(p):
            try: return pickle.load(open(p, 'rb'))
            except Exception: pass
        import ai, tempfile, shutil
        prev = ai.LOG, ai.LOGDIR
        ai.LOG, ai.LOGDIR = ai.Log(), tempfile.mkdtemp(dir=d)
        try:
            r = fn()
            for f in sorted(os.listdir(ai.LOGDIR)): ai.LOG.merge(pickle.load(open(os.path.join(ai.LOGDIR, f), 'rb')))
            log = ai.LOG
        finally:
            shutil.rmtree(ai.LOGDIR, ignore_errors=True)
            ai.LOG, ai.LOGDIR = prev
        self.store(d, 'log-' + name, log)
        self.store(d, name, r)
        return r
    def log(self, name):
        """what the runs of a cached analysis said about places that can panic"""
        p = os.path.join(extract.CACHE, 'results', 'log-%s-%s.pkl' % (name, self.stamp()))
        return pickle.load(open(p, 'rb')) if os.path.exists(p) else None
    def store(self, d, name, r):
        p = os.path.join(d, '%s-%s.pkl' % (name, self.stamp()))
        for old in sorted(glob.glob(os.path.join(d, name + '-*.pkl')), key=os.path.getmtime)[:-3]: os.remove(old)
        tmp = p + '.%d' % os.getpid()
        pickle.dump(r, open(tmp, 'wb')); os.replace(tmp, p)

class Report:
    def __init__(self):
        self.viol = []        # (key, text)
        self.undecided = []
        self.cov = {}
        self.assumptions = []
    def bad(self, key, text): self.viol.append((key, text))
    def unclear(self, text): self.undecided.append(text)

def known(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip('\n')
            pre = 'finding: property=%s ' % pid
            if line.startswith(pre):
                key, _, what = line[len(pre):].partition(' :: ')
                out.append((key.strip(), what.strip()))
    return out

def main():
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    t0 = time.time()
    man = {c['property']: c for c in json.load(open(os.path.join(VERIF, 'MANIFEST.json')))['checks']}
    level = man.get(pid, {}).get('level', 'other')
    mod = importlib.import_module(pid.lower())
    rep = Report()
    try:
        ctx = Ctx(tier)
    except extract.ExtractError as e:
        print('cannot analyse /repo: %s' % e); sys.exit(2)
    try:
        mod.check(ctx, rep)
    except Exception as e:
        # the analysis met code it cannot interpret: nothing is claimed about it, and nothing is reported
        import traceback
        traceback.print_exc()
        rep.unclear('analysis stopped: %s: %s' % (type(e).__name__, e))
    kn = known(pid)
    evd = os.environ.get('LUAFMT_EVIDENCE') or os.path.join(VERIF, 'evidence')
    rdir = os.path.join(evd, 'replay')
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, pid + '-*.txt')): os.remove(f)
    new = 0
    seen = set()
    for key, text in rep.viol:
        if key in seen: continue
        seen.add(key)
        k = [x for x in kn if x[0] == key]
        if k:
            print('KNOWN-FINDING: property=%s %s' % (pid, k[0][1])); continue
        new += 1
        if new <= 20:
            p = os.path.join(rdir, '%s-%d.txt' % (pid, new))
            with open(p, 'w') as f: f.write('key: %s\n%s\n' % (key, text))
            print('%s: %s' % (pid, text.split('\n')[0]))
            print('VIOLATION property=%s replay=%s' % (pid, p))
    for u in rep.undecided[:40]: print('undecided: ' + u)
    cov = dict(rep.cov)
    cov['undecided'] = len(rep.undecided)
    cov['undecided_samples'] = rep.undecided[:20]
    cov['known_findings'] = len([k for k in seen if k in [x[0] for x in kn]])
    cov.setdefault('explanation', mod.__doc__ or '')
    cov['violations'] = [k for k in seen][:50]
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level, 'coverage': cov,
          'assumptions': rep.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': new}
    os.makedirs(os.path.join(os.environ.get('LUAFMT_EVIDENCE') or os.path.join(VERIF, 'evidence')), exist_ok=True)
    json.dump(ev, open(os.path.join(os.environ.get('LUAFMT_EVIDENCE') or os.path.join(VERIF, 'evidence'), pid + '.json'), 'w'), indent=1, default=str)
    print('%s: %d violation(s), %d undecided, %.1f s' % (pid, new, len(rep.undecided), time.time() - t0))
    sys.exit(1 if new else 0)

if __name__ == '__main__': main()
