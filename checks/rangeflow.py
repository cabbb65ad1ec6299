"""The writer under a line range.  Positions are given as numbers (only their order matters to the code, apart from widths compared with an unknown limit):
leaf i spans 20i..20i+10.  (A) a construct that lies outside the range is written exactly as it stands in the source; (B) in the constructs above the
statements (the block and the program) every part outside is written exactly, for every placement of the range; (C) the preparation pass widens the range
to the statements it touches."""
import multiprocessing as mp
import ai
from ai import *
import constructs, writer, models
from constructs import Bad, Unclear, spelling
from grammar import Grammar

TOP = ('Chunk', 'SheBangChunk', 'StatementList', 'StatsRetStat')

def numbered(v, n):
    """positions L<i>, R<i> become numbers"""
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 'x' and isinstance(v[1], str):
            m = re.match(r'^([LR])(\d+)$', v[1])
            if m: return 20 * int(m.group(2)) + (10 if m.group(1) == 'R' else 0)
            if v[1] in ('Lb', 'La'): return 20
        return tuple(numbered(x, n) for x in v)
    return v

class RWriter(writer.Writer):
    def __init__(self, prog, rng, budget=3000000):
        super().__init__(prog, rawmode=True, budget=budget)
        self.rng = rng
        I = self.I
        I.on_run = self.summary
        I.enter_view = None
        I.exit_view = lambda I, f, args, outs, tok: I.merge_outs(outs)
        I.hooks['model:trim'] = self.h_trim2
        I.hooks['model:pop'] = self.h_pop2
    def h_pop2(self, I, st, ref, v, l):
        r = self.h_pop(I, st, ref, v, l)
        if r and len(r) == 1 and pieces(I.deref(st, ref))[-1:] == (('ws',),):
            # a blank is removed from the end of what is written
            models.upd(I, st, ref, ('S', pieces(v) + (('pb',),)))
        return r
    def h_trim2(self, I, st, v, side, cls):
        if isinstance(v, tuple) and v[0] == 'S': return [(st, ('S', (('trim', side, pieces(v), cls if cls == 'ws' else ''.join(sorted(cls))),)))]
        return None
    def h_comment(self, I, st, c, a, ln):
        n = I.deref(st, a[0])
        if n[0] != 'cnode': return NotImplemented
        ps = pieces(n[1])
        stv = I.deref(st, a[4])
        if len(ps) == 1 and ps[0][0] == 'raw' and isinstance(ps[0][1], int):
            s, e = ps[0][1], ps[0][2]
            cr = stv[3][self.sidx['comment_pos_range']]
            l, r = self.rng
            want = some(('T', (max(l - s, 0), max(r - s, 0))))
            if cr == want: piece = ('gap', s, e)
            else: piece = ('badrange', s, e)
            models.append(I, st, a[1], ('S', (piece,)))
            return [(st, OKU)]
        return super().h_comment(I, st, c, a, ln)

def spellings(G, leaf):
    return spelling(G, leaf[0], leaf[3])

def judge(G, leaves, chunk, ps, rng, st, start, end):
    l, r = rng
    outside = lambda a, b: b <= l or a >= r
    toks = []
    for lf in leaves:
        toks.append((lf[1], lf[2], [e for e in spelling(G, lf[0], lf[3]) if e != ('ws',)] if lf[0] != 'SheBang' else [('t', lf[3])], lf[0]))
    starts = {t[0]: i for i, t in enumerate(toks)}
    ends = {t[1]: i for i, t in enumerate(toks)}
    cur = start; part = None; pi = None
    if not ps or ps[0] != ('pre',): raise Bad('range', 'text written before is changed')
    work = []
    for p in ps[1:]:
        if isinstance(p, str):
            for w in re.split(r'(\s+)', p):
                if w: work.append(('ws', w) if w.isspace() else ('k', w))
        else: work.append(p)
    def blank(p): return p[0] == 'ws' or p[0] == 't' and isinstance(p[1], tuple) and p[1][0] == 'f' and str(p[1][1][1]).startswith('o:') and p[1][1][1][2:] != 'field_separator' or \
        p[0] == 'rep' and all(isinstance(x, str) and x.isspace() or not isinstance(x, str) and blank(x) for x in p[1])
    def empty_gap(a, b):
        """does the path know that the rendering of a..b is empty?"""
        for t, d in st.facts.items():
            if t[0] == 'b' and t[1] == 'empty' and d == ('in', frozenset([True])):
                if any(x == ('gap', a, b) for x in models.walk(t)): return not any(isinstance(x, tuple) and x and x[0] == 'trim' for x in models.walk(t)) or b <= r
        return False
    def to(a):
        """moves over stretches known to be rendered as nothing"""
        nonlocal cur
        while cur < a:
            if cur in ends or cur == start:
                nx = min([t[0] for t in toks if t[0] >= cur] + [end])
                if nx == cur: return
                if nx <= a and empty_gap(cur, nx): cur = nx; continue
                if nx <= a and outside(cur, nx): raise Bad('range', 'the source between %s and %s is left out although it is outside the range' % (nm(cur), nm(nx)))
                if nx <= a: cur = nx; continue
            return
    def nm(p):
        if p in ends: return 'the end of ' + toks[ends[p]][3]
        if p in starts: return toks[starts[p]][3]
        return str(p)
    ends_of_bang = [t[1] for t in toks if t[3] == 'SheBang'][:1]
    ends_of_bang = ends_of_bang[0] if ends_of_bang else None
    last = None
    for p in work:
        last, prev = p, last
        k = p[0]
        if k == 'pb':
            # a child ends with a token: it is the child's own affair what is written for a blank one
            if prev is None and start < l and not chunk: raise Bad('range', 'a blank before %s, outside the range, is removed' % nm(start))
            if prev is not None and prev[0] == 'raw' and (prev[2] <= l or prev[2] > r): raise Bad('range', 'a blank outside the range is removed before %s' % nm(cur))
            continue
        if k in ('subl',): k = 'sub'
        if k == 'self' and cur == start: cur = end; continue
        if k == 'raw':
            a, b = p[1], p[2]
            if part: raise Bad('range', 'the source is copied inside a token')
            to(a)
            if a != cur: raise Bad('range', 'the source is copied from %s where %s is due' % (nm(a), nm(cur)))
            cur = b; continue
        if k == 'gap' or k == 'badrange':
            a, b = p[1], p[2]
            if k == 'badrange': raise Bad('range', 'comments are written with a range that is not the range given, moved to the start of the comment block')
            to(a)
            if a != cur: raise Bad('range', 'a stretch between tokens is written out of place')
            if outside(a, b) and a < b: raise Bad('range', 'the comments between %s and %s are formatted although they are outside the range' % (nm(a), nm(b)))
            cur = b; continue
        if k == 'trim':
            g = [x for x in p[2] if not blank(x) if not isinstance(x, str)]
            if len(g) == 1 and g[0][0] in ('gap', 'raw'):
                a, b = g[0][1], g[0][2]
                to(a)
                if a != cur: raise Bad('range', 'a stretch between tokens is written out of place')
                if a < l < b and g[0][0] == 'gap' and 'r' in p[1] and b <= r: raise Bad('range', 'blanks before the range, in front of %s, are removed' % nm(b))
                if a < b and (g[0][0] == 'raw' and outside(a, b) or 'r' in p[1] and b > r or 'l' in p[1] and a < l): raise Bad('range', 'blanks outside the range are removed between %s and %s' % (nm(a), nm(b)))
                cur = b; continue
            raise Unclear('piece %r' % (p,))
        if k == 'sub':
            i = starts.get(cur)
            t = [j for j, x in enumerate(toks) if x[2] == [('sub', p[1])]]
            if not t: raise Unclear('child %r' % (p,))
            to(toks[t[0]][0])
            if cur != toks[t[0]][0]: raise Bad('range', 'child %s is written out of place' % toks[t[0]][3])
            cur = toks[t[0]][1]; continue
        if k in ('popped', 'popped?'):
            if cur <= l or cur > r: raise Bad('range', 'a character outside the range is removed before %s' % nm(cur))
            continue
        if blank(p):
            if part is not None: continue
            if cur == end and chunk and p[0] == 'ws': continue
            if l <= cur <= r: continue
            # at the far end of a stretch that is written as nothing
            nx = min([t[0] for t in toks if t[0] >= cur] + [end])
            if empty_gap(cur, nx) and l <= nx <= r: continue
            # a minus sign right in front of a comment, which the range does not separate from it, cannot be
            if p == ('ws', ' ') and st.facts.get(('f', ('firstch', ('S', (('raw', cur - 1, cur),))), 1, 0)) == ('in', frozenset([('ch', 45)])) and ('raw', cur, nx) != p and cur < l: continue
            if cur == ends_of_bang and p == ('ws', '\n'): continue
            if cur < l < nx and (cur in ends or cur == start): raise Bad('range', 'blanks before the range, in front of %s, are removed' % nm(nx))
            raise Bad('range', 'a blank or line break is added before %s, outside the range' % nm(nx))
        if k in ('k', 't', 'rep', 'c'):
            if part is None:
                nx = min([t[0] for t in toks if t[0] >= cur] + [end])
                to(nx)
                if cur not in starts: raise Bad('range', 'the source between %s and %s is left out' % (nm(cur), nm(nx)))
                pi = starts[cur]; part = list(toks[pi][2])
            txt = p
            while txt is not None:
                if not part: raise Unclear('token %r' % (p,))
                e = part[0]
                if e == txt: part.pop(0); txt = None
                elif e[0] == 'k' and txt[0] == 'k' and e[1].startswith(txt[1]): part[0] = ('k', e[1][len(txt[1]):]); txt = None
                elif e[0] == 'k' and txt[0] == 'k' and txt[1].startswith(e[1]):
                    txt = ('k', txt[1][len(e[1]):]); part.pop(0)
                    if not part:
                        cur = toks[pi][1]; part = None
                        if cur in starts: pi = starts[cur]; part = list(toks[pi][2])
                        else: raise Bad('range', 'the source after %s is left out' % nm(cur))
                else: raise Bad('range', '%s is not written as it stands in the source' % toks[pi][3])
            if part == []: cur = toks[pi][1]; part = None
            continue
        raise Unclear('piece %r' % (p,))
    if part: raise Bad('range', '%s is only partly written' % toks[pi][3])
    while cur < end:
        nx = min([t[0] for t in toks if t[0] >= cur] + [end])
        if nx == cur:
            i = starts[cur]
            if toks[i][2] and outside(toks[i][0], toks[i][1]): raise Bad('range', '%s is not written although it is outside the range' % toks[i][3])
            cur = toks[i][1]
            if nx == cur: break
            continue
        if outside(cur, nx) and not empty_gap(cur, nx): raise Bad('range', 'the source between %s and %s is left out although it is outside the range' % (nm(cur), nm(nx)))
        cur = nx

def placements(pts, mids):
    """all (l, r), l < r, at the points"""
    xs = sorted(set(pts) | set(mids))
    return [(a, b) for i, a in enumerate(xs) for b in xs[i + 1:]]

def one(prog, G, p, d, deep):
    I = Interp(prog)
    leaves, v, _, _ = G.build(I, d)
    out = {'prod': repr(p), 'leaves': [x[0] for x in leaves], 'bad': set(), 'unclear': set(), 'cases': 0, 'outs': 0, 'fns': set(), 'sites': 0}
    if not (isinstance(v, tuple) and v[0] == 'A') or not leaves: return out
    out['node'] = prog.byPath[v[1]]['v'][v[2]]['n']
    n = len(leaves)
    v = numbered(v, n); leaves = [numbered(x, n) for x in leaves]
    chunk = p.nt == G.start
    if chunk and leaves[-1][0] == 'EOF':
        # the end of the text is a place, not a character
        e = leaves[-1][1]; leaves[-1] = (leaves[-1][0], e, e, leaves[-1][3])
        v = subst(v, e + 10, e)
    start, end = 0 if chunk else leaves[0][1], leaves[-1][2]
    if start == end: return out
    top = out['node'] in TOP
    ranges = [] if chunk else [(end, end + 40), (0, start)]
    if top:
        pts = [start, end] + [x for lf in leaves for x in (lf[1], lf[2])]
        mids = [leaves[i][2] + 5 for i in range(n - 1)] + ([5] if chunk else [])
        for lf in leaves:
            if not G.is_term(lf[0]) and (G.rettype.get(lf[0]) and child_top(prog, G, lf[0])): mids.append(lf[1] + 5)
        ranges += [x for x in placements([x for x in pts if x >= 0], mids)]
    kinds = {}
    for rng in ranges:
        out['cases'] += 1
        W = RWriter(prog, rng)
        W.setup(leaves)
        if chunk: W.gaps.add((0, leaves[0][1]))
        try: outs = W.write(v, {'pos_range': some(('T', rng)), 'block_nested_level': ('x', 's:block_nested_level')})
        except Undecided as e: out['unclear'].add('writer: %s' % (e,)); continue
        for s, rs, ps in outs:
            out['outs'] += 1
            if rs[0] == 'A' and rs[1] == RES and rs[2] == 1: continue
            try: judge(G, leaves, chunk, list(ps), rng, s, start, end)
            except Bad as b: out['bad'].add(b.msg)
            except Unclear as u: out['unclear'].add(str(u)[:200])
        out['fns'] |= set(W.I.visited); out['sites'] += W.I.callsites
    return out
def subst(v, a, b):
    if isinstance(v, tuple): return tuple(subst(x, a, b) for x in v)
    return b if type(v) is int and v == a else v
_ct = {}
def child_top(prog, G, nt):
    if nt not in _ct:
        r = False
        for p in G.nts[nt]:
            try:
                for d in G.derivations(p, 1)[:1]:
                    _, v, _, _ = G.build(Interp(prog), d)
                    if isinstance(v, tuple) and v[0] == 'A' and prog.byPath[v[1]]['v'][v[2]]['n'] in TOP: r = True
                    elif isinstance(v, tuple) and v[0] == 'x':
                        nts = [s for s in p.rhs if s != nt and not G.is_term(s)]
                        if nts and child_top(prog, G, nts[0]): r = True
            except Undecided: pass
        _ct[nt] = r
    return _ct[nt]

# ---- the comments and blanks of a stretch
def comment_one(prog, G, p, d):
    import comments
    I = Interp(prog)
    leaves, v, _, _ = G.build(I, d)
    out = {'prod': repr(p), 'leaves': [x[0] for x in leaves], 'bad': set(), 'unclear': set(), 'cases': 0, 'outs': 0, 'fns': set(), 'sites': 0}
    if not (isinstance(v, tuple) and v[0] == 'A') or not leaves: return out
    out['node'] = prog.byPath[v[1]]['v'][v[2]]['n']
    v = numbered(v, 0); leaves = [numbered(x, 0) for x in leaves]
    leaves = [lf for lf in leaves if lf[0] != 'EOF']
    if not leaves or len(leaves) > 3: return out
    whole = p.nt == G.start
    start, end = 0 if whole else leaves[0][1], leaves[-1][2]
    ranges = [] if whole else [(end, end + 40), (0, start)]
    if all(G.is_node(lf[0]) for lf in leaves):
        pts = [start, end] + [x for lf in leaves for x in (lf[1], lf[2])]
        mids = [lf[1] + 5 for lf in leaves] + ([5] if whole else [])    # a range starts at a line break: never among the blanks
        ranges += placements(pts, mids)
    kinds = {lf[0] for lf in leaves}
    for rng in ranges:
        out['cases'] += 1
        W = comments.CWriter(prog)
        W.I.hooks['model:trim'] = lambda I, st, v, side, cls: [(st, ('S', (('trim', side, pieces(v), cls if cls == 'ws' else ''.join(sorted(cls))),)))] if isinstance(v, tuple) and v[0] == 'S' else None
        W.I.hooks['model:pop'] = RWriter.h_pop2.__get__(W)
        W.setup(leaves)
        try: outs = W.write(v, {'comment_offset': ('x', 'OFF'), 'comment_pos_range': some(('T', rng))})
        except Undecided as e: out['unclear'].add('writer: %s' % (e,)); continue
        for s, rs, ps in outs:
            out['outs'] += 1
            if rs[0] == 'A' and rs[1] == RES and rs[2] == 1: continue
            try: comment_judge(leaves, list(ps), rng, start, end, whole, s)
            except Bad as b: out['bad'].add(b.msg)
            except Unclear as u: out['unclear'].add(str(u)[:200])
        out['fns'] |= set(W.I.visited); out['sites'] += W.I.callsites
    return out
def comment_judge(leaves, ps, rng, start, end, whole, st):
    l, r = rng
    outside = lambda a, b: b <= l or a >= r
    starts = {lf[1]: lf for lf in leaves}
    cur = start
    if not ps or ps[0] != ('pre',): raise Bad('range', 'text written before is changed')
    def nm(p): return starts[p][0] if p in starts else 'position %s' % p
    def skip(a):
        nonlocal cur
        while cur < a:
            nx = min([x for lf in leaves for x in (lf[1], lf[2]) if x > cur] + [end])
            if outside(cur, nx): raise Bad('range', 'what lies in front of %s is left out although it is outside the range' % nm(nx))
            cur = nx
    prev = None
    for p in ps[1:]:
        q, prev = prev, p
        if isinstance(p, str) and p.isspace() or not isinstance(p, str) and p[0] in ('rep', 'ws') or not isinstance(p, str) and p[0] == 't' and str(p[1]).find("'o:") >= 0:
            nx = min([x for lf in leaves for x in (lf[1], lf[2]) if x > cur] + [end])
            if l <= cur <= r or l <= nx <= r or cur < l < nx: continue
            raise Bad('range', 'a blank or line break is written in front of %s, outside the range' % nm(nx))
        if isinstance(p, str): raise Unclear('text %r' % p)
        if p[0] == 'pb':
            if cur <= l and q is not None and q[0] == 'raw': raise Bad('range', 'a blank outside the range is removed')
            continue
        if p[0] == 'trim':
            g = [x for x in p[2] if not isinstance(x, str)]
            if len(g) == 1 and g[0][0] == 'raw':
                a, b = g[0][1], g[0][2]; skip(a)
                if a < l < b and cur == a: raise Bad('range', 'blanks before the range are removed')
                if outside(a, b) and a < b or b > r: raise Bad('range', 'blanks outside the range are removed in front of %s' % nm(b))
                cur = b; continue
            raise Unclear('piece %r' % (p,))
        if p[0] == 'raw':
            a, b = p[1], p[2]; skip(a)
            if a != cur: raise Bad('range', 'the source is copied from the wrong place')
            cur = b; continue
        if p[0] == 'self' and cur == start: cur = end; continue
        if p[0] in ('sub', 'subl'):
            lf = [x for x in leaves if x[3] == p[1]]
            if not lf: raise Unclear('part %r' % (p,))
            skip(lf[0][1])
            if cur != lf[0][1]: raise Bad('range', 'a part is written out of place')
            cur = lf[0][2]; continue
        raise Unclear('piece %r' % (p,))
    skip(end)

# ---- (C) widening
def widen(prog, G, p, d):
    """what preparation does to the range and the block level at this construct, children left alone"""
    I = Interp(prog)
    leaves, v, _, _ = G.build(I, d)
    out = {'prod': repr(p), 'leaves': [x[0] for x in leaves], 'node': None, 'levels': set(), 'unclear': set(), 'wide': set()}
    if not (isinstance(v, tuple) and v[0] == 'A') or not leaves: return out
    out['node'] = prog.byPath[v[1]]['v'][v[2]]['n']
    n = len(leaves)
    v = numbered(v, n); leaves = [numbered(x, n) for x in leaves]
    start, end = leaves[0][1], leaves[-1][2]
    if start == end: return out
    for lvl in (0, 1, 2):
        for rng in ((start + 5, end + 40), (start - 5, end - 5), (start + 2, end - 2), (start - 5, end + 5), (end, end + 40), (start - 15, start)):
            W = RWriter(prog, rng)
            def h(I2, st, c, a, ln):
                n = I2.deref(st, a[0]); b = writer.base(n)
                if is_sym(b):
                    sv = I2.deref(st, a[2])
                    st.heap[('lv',)] = st.heap.get(('lv',), ()) + ((b, sv[3][W.sidx['block_nested_level']], sv[3][W.sidx['pos_range']]),)
                    return [(st, UNIT)]
                return NotImplemented
            W.I.hooks[W.rkey] = h
            st = St(); st.heap['node'] = v
            st.heap['state'] = writer.state_value(prog, {'pos_range': some(('T', rng)), 'block_nested_level': lvl})
            try: outs = W.I.run(st, W.rkey, [('&', ('H', 'node'), ()), W.cfg(), ('&', ('H', 'state'), ())])
            except Undecided as e: out['unclear'].add('preparation: %s' % (e,)); continue
            for s, _ in outs:
                out['wide'].add((lvl, rng, start, end, s.heap['state'][3][W.sidx['pos_range']]))
                for b, lv, pr in s.heap.get(('lv',), ()):
                    nt = [lf[0] for lf in leaves if lf[3] == b]
                    out['levels'].add((lvl, nt[0] if nt else '?', lv))
    return out

_c = {}
def _work(j):
    try: return _work1(j)
    finally: ai.flushlog()
def _work1(job):
    i, j, kind = job
    prog, G = _c['p'], _c['g']
    if kind == 'c':
        G = _c['cg']
        try: return 'c', comment_one(prog, G, G.live[i], G.derivations(G.live[i], _c['cap'])[j])
        except Exception as e:
            import traceback
            return 'e', 'comments, %r: %s %s' % (G.live[i], type(e).__name__, traceback.format_exc()[-300:])
    d = G.derivations(G.live[i], _c['cap'])[j]
    try:
        if kind == 'w': return 'w', widen(prog, G, G.live[i], d)
        return 'o', one(prog, G, G.live[i], d, _c['deep'])
    except Exception as e:
        import traceback
        return 'e', '%r: %s %s' % (G.live[i], type(e).__name__, traceback.format_exc()[-300:])
def run(ctx):
    cap = 3 if ctx.deep else 2
    _c.update(p=ctx.prog, g=ctx.grammar, cap=cap, deep=ctx.deep)
    js = constructs.jobs(ctx.grammar, cap)
    js = [(i, j, k) for i, j in js for k in 'ow']
    CG = Grammar(ctx.prog, 'comment_syntax'); _c['cg'] = CG
    js += [(i, j, 'c') for i, p in enumerate(CG.live) if CG.is_node(p.nt) or p.nt == CG.start for j in range(len(CG.derivations(p, cap)))]
    with mp.get_context('fork').Pool(8) as pool: rs = pool.map(_work, js, chunksize=2)
    return rs
def results(ctx): return ctx.cached('range%d' % ctx.deep, lambda: run(ctx))
