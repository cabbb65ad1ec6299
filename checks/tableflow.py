"""From the text to the position table and the range of positions: process_buffer_with_config interpreted on texts of a few unknown characters, with the
parser, the preparation of the tree and the writer as boundaries.  What the writer is handed must be, for every text: the byte offset of every character and
of the end, and the stretch of characters that the lines given cover."""
import itertools
from progcfg import *
from mainflow import PB
from libflow import PARSE
import models
RECON = 'luafmt::formatting::reconstruction::reconstruct_node_tree'
CW = '<luafmt::parser::lua_ast::Node as luafmt::config::ConfiguredWrite>::configured_write'
def run(ctx):
    P = ctx.prog
    r = {'bad': set(), 'unclear': set(), 'paths': 0, 'cases': 0, 'fns': set(), 'sites': 0}
    names = [f[0] for f in P.byPath['luafmt::config::State']['v'][0]['f']]
    for h in (PARSE, RECON, CW):
        if h not in P.raw: r['unclear'].add('there is no function %s' % h); return r
    def h_parse(I, st, c, a, ln): return [(st, ok(('x', 'tree')))]
    def h_rc(I, st, c, a, ln):
        v = D(I, st, a[2]); emit(st, 'prepare', v[3]); return [(st, UNIT)]
    def h_cw(I, st, c, a, ln):
        v = D(I, st, a[4]); emit(st, 'write', v[3]); return [(st, ok(UNIT))]
    hooks = {PARSE: h_parse, RECON: h_rc, CW: h_cw, 'model:maps': True, 'display:luafmt::config::Config': lambda I, st, v: [(st, ('S', (('disp', v),)), True)]}
    top = 5 if ctx.deep else 3
    for n in range(top + 1):
        cs = [('x', 'ch%d' % i) for i in range(n)]
        T = ('S', tuple(('c', c) for c in cs)) if n else ''
        lrs = [none()] + [some(('T', (a, b))) for a in range(0, min(n, 3) + 3) for b in range(0, min(n, 3) + 3)]
        for lr in lrs:
            r['cases'] += 1
            w = World(P, hooks); w.I.nomerge = True
            C = cfgval(P, lr=lr)
            try: outs = w.run(PB, [T, C, False])
            except Undecided as e: r['unclear'].add('process_buffer_with_config: %s' % (e,)); continue
            for st, res in outs:
                r['paths'] += 1
                wr = [e for e in fx(st) if e[0] == 'write']
                if len(wr) != 1: r['unclear'].add('%d calls of the writer' % len(wr)); continue
                f = dict(zip(names, wr[0][1]))
                table(r, n, cs, f.get('chars_to_bytes'))
                lines(r, st, n, cs, lr, f.get('pos_range'))
                for e in fx(st):
                    if e[0] == 'prepare':
                        g = dict(zip(names, e[1]))
                        if g['chars_to_bytes'] != f['chars_to_bytes'] or g['pos_range'] != f['pos_range']: r['bad'].add(('C09', 'the range or the table changes between preparation and writing'))
            r['fns'] |= w.I.visited; r['sites'] += w.I.callsites
    return r
def table(r, n, cs, t):
    if isinstance(t, tuple) and t[0] == 'V': t = ('M', tuple(enumerate(t[1])))
    if not (isinstance(t, tuple) and t[0] == 'M'): r['unclear'].add('position table %r' % (t,)); return
    d = dict(t[1]); off = 0
    for i in range(n + 1):
        if n == 0: break
        if i not in d: r['bad'].add(('C22', 'the position table has no byte offset for %s of a text of %d characters' % ('the end' if i == n else 'character %d' % i, n))); return
        if d[i] != off: r['bad'].add(('C22', 'the position table puts %s of a text of %d characters at byte %s' % ('the end' if i == n else 'character %d' % i, n, show(d[i])))); return
        if i < n: off = add(off, ('utf8len', cs[i]))
    if n and any(isinstance(k, int) and k > n for k in d): r['bad'].add(('C22', 'the position table has entries beyond the end of the text'))
def show(v): return str(v)
def lines(r, st, n, cs, lr, got):
    if not (isinstance(got, tuple) and got[:2] == ('A', OPT)): r['unclear'].add('range %r' % (got,)); return
    if lr[2] == 0:
        if got[2] != 0: r['bad'].add(('C09', 'a range of positions is set although no lines are given'))
        return
    a, b = lr[3][0][1]
    nl = []
    for i, c in enumerate(cs):
        d = st.facts.get(c)
        k = st.known(('eq', c, ('ch', 10)))
        if d and d[0] == 'in' and d[1] == frozenset([('ch', 10)]) or k is True: nl.append(i)
        elif d and d[0] == '!' and ('ch', 10) in d[1] or k is False or d and d[0] == 'in' and ('ch', 10) not in d[1]: pass
        else: r['bad'].add(('C09', 'the range of positions of lines %d to %d does not depend on where the line breaks are' % (a, b))) if n else None; return
    if got[2] != 1: r['bad'].add(('C09', 'no range of positions is set for lines %d to %d' % (a, b))); return
    x, y = got[3][0][1]
    if any(isinstance(t, tuple) and t and t[0] == 'utf8len' for t in models.walk((x, y))): r['bad'].add(('C09', 'the range of positions of lines %d to %d is counted in bytes, not characters' % (a, b))); return
    if not (isinstance(x, int) and isinstance(y, int)): r['unclear'].add('range %r' % (got,)); return
    if not 0 <= x <= y <= n: r['bad'].add(('C09', 'the range of positions of lines %d to %d of a text with line breaks at %s is %s..%s' % (a, b, nl, x, y))); return
    if not 1 <= a <= b <= len(nl) + 1: return
    s = 0 if a == 1 else nl[a - 2] + 1
    e = nl[b - 1] if b <= len(nl) else n
    if not (x == s or a > 1 and x == s - 1) or not (y == e or b <= len(nl) and y == e + 1):
        r['bad'].add(('C09', 'the range of positions of lines %d to %d of a text of %d characters with line breaks at %s is %s..%s' % (a, b, n, nl, x, y)))
def results(ctx): return ctx.cached('table%d' % ctx.deep, lambda: run(ctx))
