"""The whole program run (main and everything it calls in the binary) interpreted on argument lists of unknown strings. Every string is a regular language that
the program's own tests on it split; the formatter, the file search and the option setter are the boundary. Each complete path is compared with what the
documentation says about arguments of those languages."""
from progcfg import *
import itertools
PF = 'luafmt::formatter::process_file'; PB = 'luafmt::formatter::process_buffer_with_config'; GP = 'luafmt::file_util::get_path_files'
CFGOPT = r'^--([a-zA-Z_0-9]+)=(.*)$'
def classes():
    dash = regx.lang('^(?s)-.*$')
    c = {'path': regx.any_() - dash, 'set': regx.lang(CFGOPT)}
    for k, ws in (('inplace', ('i', 'inplace')), ('recursive', ('r', 'recursive')), ('verbose', ('v', 'verbose'))):
        c[k] = regx.words(['-' + x for x in ws] + ['--' + x for x in ws])
    rest = dash
    for k in ('set', 'inplace', 'recursive', 'verbose'): rest = rest - c[k]
    # an option value with a line break in it: the documentation does not say
    c['odd'] = regx.lang(r'^(?s)--([a-zA-Z_0-9]+)=(.*)$') - c['set']
    c['other'] = rest - c['odd']
    return c
def main_key(P):
    for k, r in P.raw.items():
        if r['file'].endswith('src/main.rs') and r['path'].split('::')[-1] == 'main' and not r['closure']: return k
    raise Undecided('no main function')
def explore(P, nargs, nfiles):
    """[(state, args)] of all complete runs, the interpreter"""
    args = [('x', 'arg%d' % (i + 1)) for i in range(nargs)]
    def argv(I, st, c, a, ln):
        return one(st, ('It', 'items', ('program name',) + tuple(args)))
    def h_gp(I, st, c, a, ln):
        p, rec, ext, pre = [base(D(I, st, x)) for x in a]
        emit(st, 'paths', p, rec, ext, pre)
        out = []
        for s, n in w.choose(I, st, ('paths', p), [None] + list(nfiles)):
            out.append((s, err(('x', 'patherr')) if n is None else ok(('V', tuple(('x', 'file', p, i) for i in range(n))))))
        return out
    def h_pf(I, st, c, a, ln):
        f, cfg, v = [base(D(I, st, x)) for x in a]
        emit(st, 'format', f, cfg, v)
        return w.split(I, st, ('format', f), ok(('S', (('t', ('x', 'out', f)),))), err(('x', 'err', f)))
    def h_pb(I, st, c, a, ln):
        t, cfg, v = [base(D(I, st, x)) for x in a]
        emit(st, 'formatbuf', t, cfg, v)
        return w.split(I, st, ('formatbuf',), ok(('S', (('t', ('x', 'out', 'stdin')),))), err(('x', 'err', 'stdin')))
    def h_set(I, st, c, a, ln):
        n, v = base(D(I, st, a[1])), base(D(I, st, a[2]))
        emit(st, 'set', n, v)
        upd(I, st, a[0], ('x', 'after', D(I, st, a[0]), n, v))
        return one(st, UNIT)
    def h_lossy(I, st, c, a, ln): return one(st, D(I, st, a[0]))
    hooks = {'std::env::args_os': argv, 'std::env::args': argv, GP: h_gp, PF: h_pf, PB: h_pb, SETTER: h_set,
             'luafmt::config::Config::default': lambda I, st, c, a, ln: one(st, ('x', 'default')),
             '<T as alloc::string::ToString>::to_string': lambda I, st, c, a, ln: one(st, D(I, st, a[0])) if st.heap.get(('lang', base(D(I, st, a[0])))) else NotImplemented}
    for n in ('std::ffi::os_str::OsStr::to_string_lossy', 'std::path::Path::to_string_lossy'): hooks[n] = h_lossy
    w = World(P, hooks, budget=60000000)
    st = St()
    for a in args: st.heap[('lang', a)] = regx.any_()
    return [s for s, r in w.run(main_key(P), [], st)], args, w
def has(v, x): return any(x == y for y in models.walk(v))
def judge(s, args, kinds):
    """compare one run with the documentation, its arguments being of the given kinds; [(property, message)]"""
    bad = []
    ev = fx(s)
    flags = {k: k in kinds for k in ('inplace', 'recursive', 'verbose')}
    # options
    want = [a for a, k in zip(args, kinds) if k == 'set']
    got = [e for e in ev if e[0] == 'set']
    cfg = ('x', 'default')
    if len(want) != len(got): bad.append(('C12', '%d option(s) set instead of %d' % (len(got), len(want))))
    else:
        for a, g in zip(want, got):
            cfg = ('x', 'after', cfg, g[1], g[2])
            for i, v in ((1, g[1]), (2, g[2])):
                if not (isinstance(v, tuple) and v[:2] == ('call', 'grp')):
                    return None
                if v[4] != a: bad.append(('C12', 'the options are applied in another order')); break
                m = regx.lang(v[2], (v[3],)).renamed({v[3]: 1}); r = regx.lang(CFGOPT, (i,)).renamed({i: 1})
                L = s.heap[('lang', a)] & regx.lang(CFGOPT)
                if not L <= (m & r).erase(): bad.append(('C12', 'the %s of an option is taken from another part of the argument' % ('name' if i == 1 else 'value')))
    # standard error
    errs = [e for e in ev if e[0] == 'stderr']
    nerr = sum(1 for k in kinds if k == 'other')
    # inputs
    paths = [a for a, k in zip(args, kinds) if k == 'path']
    outs = []; writes = []; nin = 0
    if not paths:
        if any(e[0] in ('paths', 'format') for e in ev): bad.append(('C12', 'a path is processed although none was given'))
        if not any(e[0] == 'stdin' for e in ev): bad.append(('C12', 'standard input is not read although no path was given'))
        elif s.heap.get(('world', ('ok', 'stdin'))) is False:
            nerr += 1
            if any(e[0] == 'formatbuf' for e in ev): bad.append(('C14', 'input that could not be read is formatted'))
        else:
            fb = [e for e in ev if e[0] == 'formatbuf']
            if len(fb) != 1: bad.append(('C14', 'standard input is formatted %d times' % len(fb)))
            else:
                if fb[0][1] != ('x', 'stdin_text'): bad.append(('C12', 'the text formatted is not standard input'))
                bad += cfgflags(fb[0], cfg, flags)
                if s.heap[('world', ('formatbuf',))]: outs.append(('x', 'out', 'stdin'))
                else: nerr += 1
    else:
        if any(e[0] in ('stdin', 'formatbuf') for e in ev): bad.append(('C12', 'standard input is used although a path was given'))
        pe = [e for e in ev if e[0] == 'paths']
        if sorted(repr(e[1]) for e in pe) != sorted(repr(p) for p in paths):
            bad.append(('C14' if len(pe) < len(paths) and all(e[1] in paths for e in pe) and pe else 'C12', 'of the paths %s only %s are looked up' % (len(paths), len(pe))))
        for e in pe:
            if e[2] is not flags['recursive']: bad.append(('C12', 'directories are searched with recursion %s' % e[2]))
            if e[3] != 'lua' or e[4] != '.luafmt': bad.append(('C15', 'files are searched with extension %r, leaving out %r' % (e[3], e[4])))
            n = s.heap[('world', ('paths', e[1]))]
            if n is None: nerr += 1; continue
            for i in range(n):
                f = ('x', 'file', e[1], i)
                fe = [x for x in ev if x[0] == 'format' and x[1] == f]
                if len(fe) != 1: bad.append(('C14', 'file %d of %d of a path is formatted %d times' % (i + 1, n, len(fe)))); continue
                bad += cfgflags(fe[0], cfg, flags)
                if s.heap[('world', ('format', f))]:
                    if flags['inplace']:
                        writes.append((f, ('x', 'out', f)))
                        if s.heap.get(('world', ('ok', 'fs::write', f, ('S', (('t', ('x', 'out', f)),))))) is False: nerr += 1
                    else: outs.append(('x', 'out', f))
                else: nerr += 1
    # effects
    gw = [(e[1], base(e[2])) for e in ev if e[0] == 'write']
    for e in ev:
        if e[0] in ('fs', 'exit', 'open'): bad.append(('C13' if e[0] != 'exit' else 'C14', 'the program does %s' % (e[0],)))
    if sorted(gw) != sorted(writes):
        if not flags['inplace'] and gw: bad.append(('C13', 'a file is written although in-place mode is off'))
        elif len(gw) > len(writes): bad.append(('C13', 'a file is written although formatting failed or more than once'))
        elif len(gw) < len(writes): bad.append(('C13', 'a formatted file is not written in in-place mode'))
        else: bad.append(('C13', 'a file is written with something other than its own formatted text'))
    so = [e[1] for e in ev if e[0] == 'stdout']
    order = []
    for t in so:
        for p in pieces(t):
            if isinstance(p, tuple) and p[0] == 't' and p[1][:2] == ('x', 'out'):
                order.append(p[1])
                if len(pieces(t)) > 1: bad.append(('C13', 'formatted text is printed together with other text'))
            elif isinstance(p, tuple) and has(p, ('x', 'out')): return None
        if not flags['verbose'] and not any(isinstance(p, tuple) and p[0] == 't' and p[1][:2] == ('x', 'out') for p in pieces(t)) and t != '':
            bad.append(('C14', 'standard output gets something other than the formatted text'))
    if order != outs:
        bad.append(('C13', 'standard output gets the result of %d input(s) instead of %d' % (len(order), len(outs)) if len(order) != len(outs) else 'results are printed in another order'))
    if len(errs) != nerr:
        bad.append(('C14', '%d message(s) on standard error instead of %d' % (len(errs), nerr)))
    for e in ev:
        if e[0] == 'stderr' and any(isinstance(p, tuple) and p[0] == 't' and p[1][:2] == ('x', 'out') for p in pieces(e[1])): bad.append(('C14', 'formatted text is printed on standard error'))
    return bad
def cfgflags(e, cfg, flags):
    bad = []
    if e[2] != cfg: bad.append(('C12', 'a text is formatted with a configuration other than the options given'))
    if e[3] is not flags['verbose']: bad.append(('C12', 'verbose mode is %s for the formatter' % e[3]))
    return bad
def run_all(ctx):
    P = ctx.prog; K = classes()
    res = {'bad': [], 'unclear': [], 'paths': 0, 'runs': 0, 'fns': set(), 'sites': 0, 'panics': []}
    plans = [(0, (0,)), (1, (0, 1, 2)), (2, (0, 1)), (2, (2,))] + ([(3, (1,))] if ctx.deep else [])
    for n, files in plans:
        try: outs, args, w = explore(P, n, files)
        except (Undecided, regx.Unsupported) as e:
            res['unclear'].append('%d argument(s): %s' % (n, e)); continue
        res['fns'] |= w.I.visited; res['sites'] += w.I.callsites
        res['panics'] += [(p[0], p[1], p[2]) for p in w.I.panics]
        for s in outs:
            res['paths'] += 1
            poss = []
            for a in args:
                L = s.heap[('lang', a)]
                poss.append([k for k, C in K.items() if not (L & C).empty()])
            for kinds in itertools.product(*poss):
                if 'odd' in kinds: continue
                res['runs'] += 1
                r = judge(s, args, kinds)
                if r is None: res['unclear'].append('run with %s' % (kinds,)); continue
                for pid, m in r:
                    res['bad'].append((pid, m, kinds, [(s.heap[('lang', a)] & K[k]).sample() for a, k in zip(args, kinds)]))
    return res
def coverage(ctx, rep, res, rule):
    rep.cov.update({'complete_runs': res['paths'], 'obligations': res['runs'], 'functions_analysed': len(res['fns']), 'call_sites_interpreted': res['sites'], 'rule': rule,
                    'samples': sorted(f for f in res['fns'])[:6]})
    for u in res['unclear']: rep.unclear(u)
    rep.assumptions += TRUST + ['argument lists of at most two arguments (three in the thorough tier) and at most two files per path; longer lists repeat the same loop bodies']
def report(rep, res, pid):
    for p, m, kinds, ex in res['bad']:
        if p == pid: rep.bad('%s' % m, '%s (main, arguments %s, for example %s)' % (m, ' '.join(kinds) or 'none', ex))
def results(ctx): return ctx.cached('mainflow', lambda: run_all(ctx))
