"""file and configuration search interpreted on unknown directories: every combination of entry kinds, names and failures"""
from progcfg import *
from mainflow import GP
import itertools
GC = 'luafmt::file_util::get_file_config'; TF = 'luafmt::file_util::test_file_in_dir'
DOT = regx.lang('^' + esc('.luafmt'))
def hooks():
    h = {}
    def h_ext(I, st, c, a, ln):
        p = base(D(I, st, a[0])); out = []
        for s, k in World.choose(None, I, st, ('ext', p), ['lua', 'other', None]):
            if k is None: out.append((s, none()))
            elif k == 'lua': out.append((s, some('lua')))
            else: out.append((s, some('another')))
        return out
    def h_name(I, st, c, a, ln):
        p = base(D(I, st, a[0])); x = ('x', 'name', p)
        if ('lang', x) not in st.heap: st.heap[('lang', x)] = regx.any_()
        return one(st, some(x))
    h['std::path::Path::extension'] = h_ext
    h['std::path::Path::file_name'] = h_name
    h['std::ffi::os_str::OsStr::to_str'] = lambda I, st, c, a, ln: one(st, some(D(I, st, a[0])))
    h['std::ffi::os_str::OsStr::to_string_lossy'] = lambda I, st, c, a, ln: one(st, D(I, st, a[0]))
    return h
def fact(s, name, p): return s.known(('b', name, p))
def kind_options(s, p):
    """[(is_dir, is_file)] consistent with what the path has asked"""
    d, f = fact(s, 'is_dir', p), fact(s, 'is_file', p)
    return [(x, y) for x in ((True, False) if d is None else (d,)) for y in ((True, False) if f is None else (f,)) if not (x and y)]
def sel_options(s, p):
    """is the file selected by extension lua, and does its name begin with .luafmt: [(bool, bool)] still possible"""
    e = s.heap.get(('world', ('ext', p)), 0)
    es = (True, False) if e == 0 else (e == 'lua',)
    L = s.heap.get(('lang', ('x', 'name', p)))
    ns = (True, False) if L is None else tuple(b for b, K in ((True, L & DOT), (False, L - DOT)) if not K.empty())
    return [(x, y) for x in es for y in ns]
def entries(s, p):
    """readdir outcome: None not asked, False failed, or list of entry results"""
    n = s.heap.get(('world', ('readdir', p)), -1)
    return n
def result(r):
    if isinstance(r, tuple) and r[:3] == ('A', RES, 0): return 'ok', r[3][0]
    if isinstance(r, tuple) and r[:3] == ('A', RES, 1): return 'err', None
    return None, None
def path_files(ctx):
    P = ctx.prog; bad = []; unclear = []; n = 0; ob = 0
    ROOT = ('x', 'root')
    def h_rec(I, st, c, a, ln):
        p, rec, ext, pre = [base(D(I, st, x)) for x in a]
        emit(st, 'rec', p, rec, ext, pre)
        return w.split(I, st, ('rec', p), ok(('V', (('x', 'sub', p),))), err(('x', 'suberr')))
    fns = set(); sites = 0
    for items in ((0, 1, 2) if not ctx.deep else (0, 1, 2, 3)):
      for rec in (True, False):
        h = hooks(); h[GP] = h_rec
        w = World(P, h, dir_items=items, budget=20000000)
        old = w.I.hooks['std::fs::read_dir']
        def read_dir(I, st, c, a, ln):
            p = base(D(I, st, a[0])); out = []
            for s, k in w.choose(I, st, ('readdir', p), [False, items]):
                out.append((s, err(('x', 'readerr'))) if k is False else (s, ok(('It', 'items', tuple(sym('entry', p, i) for i in range(k))))))
            return out
        w.I.hooks['std::fs::read_dir'] = w.I.hooks['std::path::Path::read_dir'] = read_dir
        try: outs = w.run(GP, [ROOT, rec, 'lua', '.luafmt'])
        except (Undecided, regx.Unsupported) as e: unclear.append('get_path_files: %s' % e); continue
        fns |= w.I.visited; sites += w.I.callsites
        for s, r in outs:
            n += 1
            k, v = result(D(w.I, s, r))
            if k is None: unclear.append('get_path_files returns %r' % (r,)); continue
            got = None
            if k == 'ok':
                v = D(w.I, s, v)
                if not (isinstance(v, tuple) and v[0] == 'V'): unclear.append('get_path_files returns %r' % (v,)); continue
                got = sorted(repr(base(x)) for x in v[1])
            for e in fx(s):
                if e[0] == 'rec' and e[2:] != (True, 'lua', '.luafmt'): bad.append('a subdirectory is searched with %r' % (e[2:],))
            for isd, isf in kind_options(s, ROOT):
                ob += 1
                if not isd:
                    if isf and (k != 'ok' or got != [repr(ROOT)]): bad.append('a file argument does not select exactly that file')
                    if not isf and k == 'ok': bad.append('a path that is neither a file nor a directory is not an error')
                    continue
                rd = entries(s, ROOT)
                if rd == -1: bad.append('a directory is not read'); continue
                if rd is False:
                    if k == 'ok': bad.append('a directory that cannot be read is not an error')
                    continue
                alts = []
                for i in range(rd):
                    e = sym('entry', ROOT, i); okd = is_ok(s, e)
                    p = sym('path', ('f', e, 0, 0))
                    if okd is False: alts.append([('err', 'entry')]); continue
                    if okd is None: alts.append([('unseen', None)]); continue
                    o = []
                    for d, f in kind_options(s, p):
                        if d: 
                            if not rec: o.append(('none', None)); continue
                            rr = s.heap.get(('world', ('rec', p)))
                            o.append(('sub', ('x', 'sub', p)) if rr else ('err', 'sub') if rr is False else ('missing', p))
                        elif f:
                            for lua, dot in sel_options(s, p): o.append(('file', p) if lua and not dot else ('none', 'dot' if lua else 'ext'))
                        else: o.append(('none', None))
                    alts.append(o)
                for combo in itertools.product(*alts):
                    ob += 1
                    kinds = [c[0] for c in combo]
                    if 'missing' in kinds and 'err' not in kinds: bad.append('a subdirectory is not searched in recursive mode'); continue
                    if 'err' in kinds or 'unseen' in kinds:
                        if k == 'ok': bad.append('an entry or subdirectory that cannot be read is not an error')
                        continue
                    want = sorted(repr(c[1]) for c in combo if c[0] in ('file', 'sub'))
                    if k == 'err': bad.append('a readable directory is an error'); continue
                    if got != want:
                        extra = [g for g in got if g not in want]; miss = [g for g in want if g not in got]
                        what = 'selects a file it should not' if extra else 'leaves out a file it should select'
                        for c in combo:
                            if c[0] == 'none' and repr(c[1]): pass
                        bad.append('a directory %s' % what)
    return sorted(set(bad)), unclear, n, ob, fns, sites
def config_search(ctx):
    P = ctx.prog; bad = []; unclear = []; n = 0
    F = ('x', 'file')
    DEPTH = 4 if ctx.deep else 3
    def h_tf(I, st, c, a, ln):
        d, pre, ext = [base(D(I, st, x)) for x in a]
        emit(st, 'look', d, pre, ext)
        out = []
        for s, k in w.choose(I, st, ('look', d), ['some', 'none', 'err']):
            out.append((s, ok(some(('x', 'conf', d))) if k == 'some' else ok(none()) if k == 'none' else err(('x', 'lookerr'))))
        return out
    def depth(p):
        k = 0
        while p[:2] == ('x', 'parent'): p = p[2]; k += 1
        return k
    def h_parent(I, st, c, a, ln):
        p = base(D(I, st, a[0]))
        vals = [True, False] if depth(p) < DEPTH else [False]
        return [(s, some(('x', 'parent', p)) if b else none()) for s, b in w.choose(I, st, ('parent', p), vals)]
    h = hooks(); h[TF] = h_tf; h['std::path::Path::parent'] = h_parent
    w = World(P, h)
    try: outs = w.run(GC, [F, '.luafmt'])
    except (Undecided, regx.Unsupported) as e: return bad, ['get_file_config: %s' % e], 0, w
    for s, r in outs:
        n += 1
        r = D(w.I, s, r)
        g = lambda *k: s.heap.get(('world', k))
        canon = g('ok', 'canonical', F)
        if canon is None:
            dirs = sorted({str(e[1]) for e in fx(s) if e[0] == 'look'})
            # without the resolved path the components of the path are walked as written: '..' and links lead to directories that are not its ancestors
            if dirs: bad.append('the search walks directories of a path that was not resolved')
            else: unclear.append('get_file_config does not resolve the path')
            continue
        want = none()
        if canon:
            p = sym('canonical', F)
            while True:
                par = g('parent', p)
                if par is None: bad.append('the search stops before the root'); want = None; break
                if not par: break
                p = ('x', 'parent', p)
                l = g('look', p)
                if l is None: bad.append('a directory between the file and the root is not searched'); want = None; break
                if l == 'some': want = some(('x', 'conf', p)); break
        if want is not None and r != want:
            bad.append('a configuration file is found although there is none' if want == none() else 'the nearest configuration file is not the one used')
        for e in fx(s):
            if e[0] == 'look' and e[2:] != ('.luafmt', 'lua'): bad.append('configuration files are searched as %r' % (e[2:],))
    return sorted(set(bad)), unclear, n, w
def in_dir(ctx):
    P = ctx.prog; bad = []; unclear = []; n = 0; ob = 0; fns = set()
    R = ('x', 'dir')
    for items in (0, 1, 2):
        w = World(P, hooks(), budget=20000000)
        def read_dir(I, st, c, a, ln):
            p = base(D(I, st, a[0])); out = []
            for s, k in w.choose(I, st, ('readdir', p), [False, items]):
                out.append((s, err(('x', 'readerr'))) if k is False else (s, ok(('It', 'items', tuple(sym('entry', p, i) for i in range(k))))))
            return out
        w.I.hooks['std::fs::read_dir'] = w.I.hooks['std::path::Path::read_dir'] = read_dir
        try: outs = w.run(TF, [R, '.luafmt', 'lua'])
        except (Undecided, regx.Unsupported) as e: unclear.append('test_file_in_dir: %s' % e); continue
        fns |= w.I.visited
        for s, r in outs:
            n += 1
            k, v = result(D(w.I, s, r))
            if k is None: unclear.append('test_file_in_dir returns %r' % (r,)); continue
            v = D(w.I, s, v) if k == 'ok' else None
            hit = v[3][0] if k == 'ok' and isinstance(v, tuple) and v[:3] == ('A', OPT, 1) else None
            for isd, isf in kind_options(s, R):
                ob += 1
                if not isd:
                    if hit: bad.append('a configuration file is found in something that is not a directory')
                    continue
                rd = entries(s, R)
                if rd == -1: bad.append('a directory is not searched'); continue
                if rd is False: 
                    if hit: bad.append('a configuration file is found in an unreadable directory')
                    continue
                if k == 'err': continue
                ps = [sym('path', ('f', sym('entry', R, i), 0, 0)) for i in range(rd)]
                def can(p): return [(f and lua and dot) for d, f in kind_options(s, p) for lua, dot in sel_options(s, p)]
                if hit is not None:
                    if base(hit) not in ps: bad.append('the configuration file found is not an entry of the directory')
                    elif not all(can(base(hit))): bad.append('a file is taken as configuration file without being a file called .luafmt*.lua')
                else:
                    for i, p in enumerate(ps):
                        if is_ok(s, sym('entry', R, i)) is False: continue
                        if any(can(p)): bad.append('a file called .luafmt*.lua is not found')
    return sorted(set(bad)), unclear, n, ob, fns
def empty_format(ctx):
    """has any format option been given"""
    P = ctx.prog; bad = []; n = 0; unclear = []
    w = World(P)
    names = [x for x, _ in fields(P)]
    for one_ in [None] + names:
        for lr in (none(), some(('x', 'range'))):
            n += 1
            st = St(); st.heap['cfg'] = cfgval(P, lr, one_, True)
            try: outs = w.run('luafmt::config::Config::has_empty_format', [('&', ('H', 'cfg'), ())], st)
            except Undecided as e: unclear.append('has_empty_format: %s' % e); continue
            for s, r in outs:
                r2 = w.I.eval_bool(s, r) if not isinstance(r, bool) else r
                if r2 is None: unclear.append('has_empty_format with %s: %r' % (one_, r)); continue
                if r2 != (one_ is None): bad.append('with %s the format options count as %s' % ('only %s set' % one_ if one_ else 'no option set', 'none given' if r2 else 'given'))
    return bad, unclear, n, w
