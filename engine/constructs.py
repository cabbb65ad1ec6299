"""For every construct the grammar can build (each production, lists unrolled): run preparation and writer symbolically and compare the
written pieces with the construct's own leaves and gaps."""
import os, sys, time, pickle, hashlib, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ai
from ai import *
from grammar import *
from writer import *
import models

class Unclear(Exception): pass
class Bad(Exception):
    def __init__(self, kind, msg): self.kind, self.msg = kind, msg

def shape(v):
    """a node without its option records and without the marks preparation puts on children"""
    v = base(v)
    if isinstance(v, tuple) and v:
        if v[0] == 'A':
            if v[1].endswith('Opts') and v[1] != 'luafmt::config::FormatOpts': return ('opts',)
            return ('A', v[1], v[2], tuple(shape(x) for x in v[3]))
        if v[0] in ('T', 'V'): return (v[0], tuple(shape(x) for x in v[1]))
    return v

STRINGS = {'NormalStringLiteral': '"', 'CharStringLiteral': "'"}
def spelling(G, sym, val):
    """pieces a leaf must be written as; None for a child"""
    if not G.is_term(sym): return [('sub', val)]
    vn = G.varname.get(sym)
    if sym.startswith('"') and sym.endswith('"'):
        s = sym[1:-1]
        return [('k', s)]
    if sym == 'EOF': return []
    if sym in STRINGS: q = STRINGS[sym]; return [('k', q), ('t', val), ('k', q)]
    if sym == 'MultiLineStringLiteral':
        return [('k', '['), ('rep', ('=',), val[1][0]), ('k', '['), ('t', val[1][1]), ('k', ']'), ('rep', ('=',), val[1][0]), ('k', ']')]
    if sym == 'SheBang': return [('t', val), ('ws',)]
    if sym == 'FieldSep': return [('k', val)] if isinstance(val, str) else [('t', val)]
    return [('t', val)]

def match(G, leaves, chunk, ps, empty=lambda a, b: False):
    """compare written pieces with the leaves; returns list of notes; raises Bad / Unclear"""
    n = len(leaves)
    L = [l[1] for l in leaves]; R = [l[2] for l in leaves]
    # gaps 0..n : gap i is before leaf i (0-based); gap 0 only for a chunk
    gapidx = {}
    for i in range(1, n): gapidx[(R[i - 1], L[i])] = i
    lead = None
    if chunk: gapidx[(0, L[0])] = 0; lead = 0
    ps = list(ps)
    assert ps and ps[0] == ('pre',), ps
    ps = ps[1:]
    L = list(L); R = list(R)
    convs = []
    seps = []
    pos = 0            # next leaf
    part = None        # remaining pieces of the leaf being consumed
    done_gap = set(); gap0 = set()
    for p in ps:
        if p[0] == 'gap0' and (p[1], p[2]) in gapidx: gap0.add(gapidx[(p[1], p[2])])
    exp = [spelling(G, l[0], l[3]) for l in leaves]
    issep = [is_sep(G, leaves, i) for i in range(n)]
    def need_gap(i):
        if i == 0 and not chunk: return
        if i in done_gap or i in gap0: return
        if empty(R[i - 1] if i else 0, L[i]): return
        raise Bad('gap', 'the source stretch before %s is not written' % (leaves[i][0],))
    def skip_empty():
        nonlocal pos
        while pos < n and part is None and not [e for e in exp[pos] if e[0] != 'ws']:
            if not (pos in done_gap or pos in gap0 or (pos == 0 and not chunk)): return
            pos += 1
    def start():
        nonlocal part
        if part is None:
            if pos >= n: raise Bad('token', 'more is written after the last token')
            need_gap(pos)
            part = [e for e in exp[pos] if e[0] != 'ws']
    trailing_dropped = False
    i = 0
    while i < len(ps):
        p = ps[i]; i += 1
        k = p[0]
        if k == 'subl': p = ('sub', p[1]); k = 'sub'
        if k == 'ws' or k == 'gap0': 
            skip_empty(); continue
        if k == 'self':
            if pos == 0 and part is None: pos = n; done_gap |= set(range(n)); continue
            raise Bad('dup', 'the whole construct is written again inside itself')
        if k == 'ERR': raise Bad('err', 'a failed write is taken for a success')
        if k == 'badgap': raise Bad('gap', 'a source stretch is rendered with the wrong %s' % (p[3] if len(p) > 3 else 'text',))
        if k == 'popped': raise Bad('token', 'a written character that need not be blank is removed again')
        if k == 'badslice': raise Bad('slice', 'the source is cut at positions that do not come from the position table')
        if k in ('gap', 'raw'):
            a, b = p[1], p[2]
            for x in (a, b):
                if isinstance(x, tuple) and x[0] == 'lin' and x[1] and len(x[2]) == 1 and x[2][0][1] == 1 and x[2][0][0] in L + R: raise Bad('slice', 'a stretch of the source starts or ends %+d characters from the token it belongs to' % x[1])
            if (a, b) in gapidx:
                g = gapidx[(a, b)]
                if part is not None: raise Bad('gap', 'a source stretch is written inside a token')
                # a dropped final separator
                if g != pos and pos < n and issep[pos] and g == pos + 1 and False: pass
                if g in done_gap and g not in gap0: raise Bad('gapdup', 'the source stretch before %s is written twice' % leaves[g][0])
                if g != pos:
                    raise Bad('gap', 'the source stretch before %s is written elsewhere' % leaves[g][0])
                done_gap.add(g); skip_empty(); continue
            if k == 'raw':
                # boundaries
                if part is not None: raise Bad('token', 'raw source is copied inside a token')
                if a in L and L.index(a) >= pos:
                    s = L.index(a)
                    if s != pos: raise Bad('token', 'raw copy leaves out %s' % leaves[pos][0])
                    need_gap(s)
                elif a in R and R.index(a) == pos - 1:
                    s = pos
                elif a == 0 and chunk and pos == 0: s = 0
                elif a in L or a in R: raise Bad('dup', 'raw source is copied again or out of place')
                else: raise Unclear('raw %r' % (p,))
                if b in R and R.index(b) >= s: e = R.index(b) + 1
                elif b in L and L.index(b) >= s: e = L.index(b); done_gap.add(e)
                elif b in L or b in R: raise Bad('token', 'raw copy ends before it starts')
                else: raise Unclear('raw %r' % (p,))
                for x in range(s, e): done_gap.add(x)
                pos = e; skip_empty(); continue
            # gap between non adjacent boundaries
            known = set(L) | set(R) | {0}
            if a == b: continue
            if a in known and b in known: raise Bad('gap', 'a stretch of source that holds tokens is rendered as a comment or blank')
            raise Unclear('gap %r' % (p,))
        if k == 'sub':
            start() if pos < n or part is not None or p[1] not in [l[3] for l in leaves] else None
            if part and part[0] == p: part.pop(0)
            elif p[1] in [l[3] for l in leaves[:pos]]: raise Bad('dup', 'child %s is written again' % name_of(leaves, p[1]))
            elif part and part[0][0] == 'sub' or not part:
                raise Bad('order', 'child %s is written where %s is due' % (name_of(leaves, p[1]), leaves[pos][0]))
            else: 
                raise Bad('token', '%s is missing before child %s' % (leaves[pos][0], name_of(leaves, p[1])))
        elif k == 't' and is_fieldsep(p):
            if pos < n and part is None and issep[pos]:
                need_gap(pos); pos += 1; seps.append('conf'); skip_empty(); continue
            if pos == n and is_fieldlist(G, leaves): 
                seps.append('added'); continue
            raise Bad('token', 'a field separator is written where %s is due' % (leaves[pos][0] if pos < n else 'nothing'))
        elif k in ('k', 't', 'rep'):
            s = p
            if k == 'k':
                txt = p[1]
                while txt:
                    if pos == n and part is None and txt in (',', ';') and is_fieldlist(G, leaves): seps.append('added'); txt = ''; break
                    start()
                    if not part: raise Bad('token', 'unexpected %r' % txt)
                    e = part[0]
                    if leaves[pos][0] == 'CharStringLiteral' and len(part) == 3 and txt[0] == '"':
                        # re-quoted
                        if i + 1 < len(ps) + 0 and txt == '"' and ps[i][0] == 't' and ps[i][1][0] == 'call' and str(ps[i][1][1]).startswith('conv:') and ps[i][1][2] == leaves[pos][3] \
                           and ps[i + 1][0] == 'k' and ps[i + 1][1][0] == '"':
                            convs.append(ps[i][1][1][5:])
                            txt = ps[i + 1][1][1:]; i += 2; part = None; pos += 1; skip_empty(); continue
                        raise Bad('token', 'a single-quoted string is written in double quotes without converting its text')
                    if e[0] != 'k': raise Bad('token', '%r is written where %s is due' % (txt, leaves[pos][0]))
                    m = min(len(e[1]), len(txt))
                    if e[1][:m] != txt[:m]: raise Bad('token', '%r is written where %s is due' % (txt, leaves[pos][0]))
                    txt = txt[m:]
                    if m == len(e[1]): part.pop(0)
                    else: part[0] = ('k', e[1][m:])
                    if not part: part = None; pos += 1; skip_empty()
                continue
            start()
            if part and part[0] == p: part.pop(0)
            elif k == 't' and isinstance(p[1], tuple) and p[1][0] in ('x',) and p[1] in [l[3] for l in leaves]:
                raise Bad('token', 'the text of another token is written where %s is due' % leaves[pos][0])
            elif k == 't' and isinstance(p[1], tuple) and p[1][0] == 'x' and False: pass
            elif k == 'rep' and part and part[0][0] == 'rep': raise Bad('token', 'wrong long bracket level')
            elif k == 't' and isinstance(p[1], tuple) and p[1][0] == 'f' and str(p[1][1][1]).startswith('o:'):
                raise Bad('token', 'the text of option %s is written where %s is due' % (p[1][1][1][2:], leaves[pos][0]))
            else: raise Unclear('piece %r' % (p,))
        else:
            raise Unclear('piece %r' % (p,))
        if part is not None and not part: part = None; pos += 1; skip_empty()
    skip_empty()
    if part is not None: raise Bad('token', '%s is only partly written' % leaves[pos][0])
    while pos < n:
        if issep[pos] and pos == n - 1 and is_fieldlist(G, leaves):
            need_gap(pos); pos += 1; seps.append('dropped'); continue
        if not exp[pos] : need_gap(pos); pos += 1; continue
        raise Bad('token', '%s is not written' % leaves[pos][0])
    return convs, seps

def is_fieldsep(p):
    return p[0] == 't' and p[1] == ('f', ('x', 'o:field_separator'), 1, 0)
def is_fieldlist(G, leaves): return any(l[0] == 'Field' for l in leaves)
def is_sep(G, leaves, i): return leaves[i][0] in ('","', '";"', 'FieldSep') and is_fieldlist(G, leaves)
def name_of(leaves, v):
    for i, l in enumerate(leaves):
        if l[3] == v: return '%s#%d' % (l[0], i + 1)
    return repr(v)

def known_empty(I, s, a, b):
    e = I.simp_eq(s, a, b)
    if e is True or not isinstance(e, bool) and I.eval_bool(s, e) is True: return True
    return I.entails(s, add(b, a, -1))

PRESERVED = ('indent_level', 'stack_indent', 'function_nested_level', 'block_nested_level', 'pos_range', 'chars_to_bytes')

def dname(d):
    """readable name of a derivation"""
    return repr(d[1])

class Result:
    pass

def spans(v, leaves):
    """do all nodes built here start no later than they end? None: there is no node with a span"""
    at = {0: -1}
    for i, x in enumerate(leaves): at.setdefault(x[1], 2 * i); at.setdefault(x[2], 2 * i + 1)
    n = 0; work = [v]; good = True
    while work:
        x = work.pop()
        if not (isinstance(x, tuple) and x): continue
        if x[0] == 'A' and x[1].endswith('::Node') and x[3] and isinstance(x[3][0], tuple) and x[3][0][0] == 'A' and x[3][0][1].endswith('::Loc'):
            n += 1
            a, b = x[3][0][3]
            if a not in at or b not in at or at[a] > at[b]: good = False
        if x[0] in ('A', 'T', 'V'): work.extend(x[-1])
    return good if n else None
def one(prog, G, p, d, deep=False):
    """analyse one derivation; returns a plain dict"""
    I = Interp(prog)
    t0 = time.time()
    leaves, v, l, r = G.build(I, d)
    lv = [x[0] for x in leaves]
    out = {'prod': repr(p), 'nt': p.nt, 'leaves': lv, 'bad': [], 'unclear': [], 'outs': 0, 'ok': 0, 'convs': set(), 'panics': [], 'asserts': {}, 'seps': set(),
           'unmodelled': {}, 'state': [], 'children': [], 'sites': 0, 'fns': set(), 'prep': 0, 'act': p.act}
    if not (isinstance(v, tuple) and v[0] == 'A'):
        out['skip'] = True
        if v != ('x', 'n1') and not (is_sym(v)): out['unclear'].append('value %r' % (v,))
        elif len([x for x in leaves if not G.is_term(x[0])]) == 1 and len(leaves) == 1 and v == leaves[0][3]: pass
        else: out['bad'].append(('token', 'the action keeps only part of %s' % ' '.join(lv)))
        out['t'] = time.time() - t0
        return out
    chunk = p.nt == G.start
    out['span'] = spans(v, leaves)
    W = Writer(prog)
    W.setup(leaves)
    if chunk: W.gaps.add((0, leaves[0][1]))
    kids = [x[3] for x in leaves if not G.is_term(x[0])]
    out['node'] = prog.byPath[v[1]]['v'][v[2]]['n']
    try:
        pr = W.prepare(v)
        out['prep'] = len(pr)
        seen = {}
        for s, n in pr:
            sh = shape(n)
            if sh != shape(v) and shape_conv(prog, shape(v), sh) is None:
                out['children'].append(('shape', 'preparation changes the shape of the node'))
            for kid in kids:
                c = s.heap.get(('visited', kid), 0)
                if c != 1: out['children'].append(('visits', '%s is visited %s' % (name_of(leaves, kid), 'never' if c == 0 else '%d times' % c)))
            seen.setdefault(sh, n)
        out['children'] = sorted(set(out['children']))
    except Undecided as e:
        out['unclear'].append('preparation: %s' % (e,))
        seen = {v: v}
    for sh, n in seen.items():
        try:
            outs = W.write(n)
        except Undecided as e:
            out['unclear'].append('writer: %s' % (e,)); continue
        except RecursionError as e:
            out['unclear'].append('writer: recursion'); continue
        for s, res, ps in outs:
            out['outs'] += 1
            if isinstance(res, tuple) and res[0] == 'A' and res[1] == RES and res[2] == 1: continue
            if not (isinstance(res, tuple) and res[0] == 'A' and res[1] == RES):
                out['unclear'].append('result %r' % (res,)); continue
            out['ok'] += 1
            try:
                cv, sp = match(G, leaves, chunk, ps, lambda a, b: known_empty(W.I, s, a, b))
                out['convs'] |= set(cv); out['seps'] |= set(sp)
            except Bad as b: out['bad'].append((b.kind, b.msg))
            except Unclear as u: out['unclear'].append(str(u))
            stv = s.heap['state']
            for i, (nm, ty) in enumerate(prog.byPath['luafmt::config::State']['v'][0]['f']):
                if nm in PRESERVED:
                    want = ('x', 'c2b') if 'HashMap' in ty else ('x', 's:' + nm)
                    if stv[3][i] != want:
                        out['state'].append((nm, repr(stv[3][i])))
    out['bad'] = sorted(set(out['bad']))
    out['state'] = sorted(set(out['state']))
    out['unclear'] = sorted(set(out['unclear']))
    out['panics'] = sorted(set((k, ln, kd) for k, ln, kd, dt, stk in W.I.panics + I.panics))
    out['asserts'] = {k: sorted(map(str, v)) for k, v in W.I.asserts.items()}
    out['unmodelled'] = dict(W.I.unmodelled)
    out['leaks'] = sorted(W.leaks)
    out['sites'] = W.I.callsites
    out['fns'] = set(W.I.visited)
    out['t'] = time.time() - t0
    return out

def shape_conv(prog, a, b):
    """a single-quoted string node may become a double-quoted one"""
    if a[0] == 'A' and b[0] == 'A' and a[1] == b[1] and len(a[3]) == len(b[3]) and a[2] != b[2]:
        na, nb = prog.byPath[a[1]]['v'][a[2]]['n'], prog.byPath[b[1]]['v'][b[2]]['n']
        if 'CharString' in na and 'NormalString' in nb: return True
    return None

def jobs(G, cap):
    out = []
    for i, p in enumerate(G.live):
        if not G.is_node(p.nt): continue
        ds = G.derivations(p, cap)
        for j, d in enumerate(ds):
            out.append((i, j))
    return out

_ctx = {}
def _init(outdir, cap):
    prog = Prog(outdir)
    _ctx['p'] = prog; _ctx['g'] = Grammar(prog); _ctx['cap'] = cap; _ctx['d'] = {}
def _work(j):
    try: return _work1(j)
    finally: ai.flushlog()
def _work1(job):
    i, j = job
    G = _ctx['g']
    p = G.live[i]
    if i not in _ctx['d']: _ctx['d'][i] = G.derivations(p, _ctx['cap'])
    try:
        return one(_ctx['p'], G, p, _ctx['d'][i][j])
    except Exception as e:
        import traceback
        return {'prod': repr(p), 'nt': p.nt, 'leaves': G.leaves(_ctx['d'][i][j]), 'bad': [], 'unclear': ['%s: %s' % (type(e).__name__, e), traceback.format_exc()[-400:]], 'outs': 0, 'ok': 0,
                'convs': set(), 'seps': set(), 'panics': [], 'asserts': {}, 'unmodelled': {}, 'state': [], 'children': [], 'sites': 0, 'fns': set(), 'prep': 0, 't': 0, 'act': p.act}

def run_all(outdir, cap=2, procs=8):
    _init(outdir, cap)
    js = jobs(_ctx['g'], cap)
    js.sort(key=lambda ij: -len(_ctx['g'].leaves(_ctx['g'].derivations(_ctx['g'].live[ij[0]], cap)[ij[1]])))
    with mp.get_context('fork').Pool(procs) as pool:
        return pool.map(_work, js, chunksize=1)

if __name__ == '__main__':
    t = time.time()
    rs = run_all('/verif/cache/dump', int(sys.argv[1]) if len(sys.argv) > 1 else 2)
    print(len(rs), 'derivations', sum(r['outs'] for r in rs), 'outcomes', '%.1fs' % (time.time() - t))
    for r in rs:
        if r['bad'] or r.get('leaks') or r['unclear'] or r['state'] or r['children'] or r.get('t', 0) > 10:
            print(r['prod'], '|', ' '.join(r['leaves']), '|', r.get('node'), '%.1fs' % r['t'])
            for k in ('bad', 'unclear', 'state', 'children', 'leaks'):
                if k not in r: continue
                for x in r[k]: print('    ', k, str(x)[:300])
    print('panics', sorted(set(x for r in rs for x in r['panics'])))
    print('unmodelled', set(k for r in rs for k in r['unmodelled']))
    print('convs', set(k for r in rs for k in r['convs']))
