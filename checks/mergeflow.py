"""Tokens that the source separates stay apart.
(1) The rendering of the stretch between two tokens (CommentLocHint) is interpreted on every end of a token followed by every start of a token with which it would
merge, with every option symbolic, once for each way its comments and blanks can come out: nothing at all, blanks, a line break, a comment.
(2) The writer of every construct is interpreted with that rendering as a boundary: where a construct cuts blanks off it, or leaves it out because it came out empty,
a blank must be written in its place."""
import re, multiprocessing as mp
import ai
from ai import *
from grammar import Grammar
import writer, models, constructs
from constructs import name_of

# ---- which tokens merge: the longest-match rules of the manual
TOK = re.compile(r'--|\[=*\[|0[xX](?:[pP][+-]?|[0-9a-fA-F.])*|\.?[0-9](?:[eE][+-]?|[0-9a-fA-F.])*|[A-Za-z_][A-Za-z0-9_]*|\.\.\.|\.\.|==|~=|<=|>=|//|::|<<|>>|"[^"]*"|\'[^\']*\'|\S')
def lex(s): return TOK.findall(s)
def merges(a, b):
    la, lb = lex(a), lex(b)
    return lex(a + b) != la + lb
SAMPLES = {'Variable': ['a', 'e1'], 'Numeral': ['3', '3.', '.5', '0x1', '3e1', '3.5'], 'NormalStringLiteral': ['"s"'], 'CharStringLiteral': ["'s'"], 'MultiLineStringLiteral': ['[[s]]', '[=[s]=]'], 'FieldSep': [',', ';']}
def samples(G, t):
    if t.startswith('"') and t.endswith('"'): return [t[1:-1]]
    return SAMPLES.get(G.varname.get(t, t), SAMPLES.get(t, []))
def ends(G):
    """first and last terminals of every symbol, and the pairs of terminals that can be neighbours"""
    prods = [p for ps in G.nts.values() for p in ps]
    nullable = set(); ch = True
    while ch:
        ch = False
        for p in prods:
            if p.nt not in nullable and all(s in nullable for s in p.rhs): nullable.add(p.nt); ch = True
    def table(rev):
        T = {n: set() for n in G.nts}; ch = True
        while ch:
            ch = False
            for p in prods:
                for s in (reversed(p.rhs) if rev else p.rhs):
                    add = {s} if s not in G.nts else T[s]
                    if not add <= T[p.nt]: T[p.nt] |= add; ch = True
                    if s not in nullable: break
        return T
    F, L = table(False), table(True)
    fs = lambda s: {s} if s not in G.nts else F[s]
    ls = lambda s: {s} if s not in G.nts else L[s]
    pairs = set()
    for p in prods:
        for i in range(len(p.rhs)):
            for j in range(i + 1, len(p.rhs)):
                pairs |= {(a, b) for a in ls(p.rhs[i]) for b in fs(p.rhs[j])}
                if p.rhs[j] not in nullable: break
    return fs, ls, pairs

# ---- (1)
W = [c for c in 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_']; D = list('0123456789'); X = W + D; HEX = list('abcdefABCDEF'); DOT = ['.']; SP = [' ']
NAMES = [[W], [W, X], [DOT, W], [SP, W], [['-'], W]]
NUMS = [[D], [D, D], [['0'], ['x', 'X'], D + HEX], [D, DOT, D], [DOT, D], [SP, DOT, D], [D, ['e', 'E'], D], [W, DOT, DOT, D], [W, DOT, DOT, DOT, D], [['-'], D], [[')'], DOT, DOT, D]]
NUMDOT = [[D, DOT], [W, DOT, DOT, D, DOT], [D, D, DOT], [['('], D, DOT]]
MINUS = [[['-']], [W, ['-']], [SP, ['-']], [D, ['-']]]
CASES = [(NAMES, [X]), (NUMS, [W, DOT]), (NUMDOT, [HEX, DOT]), (MINUS, [['-']]), ([[['[']], [W, ['[']]], [['[']]), ([[DOT, DOT], [W, DOT, DOT], [SP, DOT, DOT], [DOT, DOT, DOT]], [DOT])]
def covered(a, b):
    for Ls, Rs in CASES:
        for l in Ls:
            if len(l) <= len(a) and all(c in s for c, s in zip(a[-len(l):], l)):
                if any(b[0] in r for r in Rs): return True
    return False
KINDS = ('nothing', 'blanks', 'line break', 'one-line comment', 'long comment')
def hint_key(P):
    out = []
    for k, f in P.raw.items():
        if not f.get('ours', True) or not k.endswith('ConfiguredWrite>::configured_write') : continue
        F = P.fn(k)
        for b in F.live:
            t = F.bb[b][1]
            if t[0] == 'call' and t[1][0] == 'dir' and (t[1][1].r or t[1][1].p) == 'luafmt::parser::parse_comment': out.append(k); break
    return out
def run_gap(ctx):
    P = ctx.prog; G = ctx.grammar
    r = {'bad': {}, 'unclear': set(), 'cases': 0, 'outs': 0, 'fns': set(), 'sites': 0}
    _, _, pairs = ends(G)
    r['pairs'] = len(pairs); mp_ = set()
    for x, y in pairs:
        for a in samples(G, x):
            for b in samples(G, y):
                if merges(a, b):
                    mp_.add((x, y))
                    if not covered(a, b): r['unclear'].add('%s before %s is not among the ends examined' % (a, b))
    r['merging'] = sorted(mp_)
    ks = hint_key(P)
    if len(ks) != 1: r['unclear'].add('%d functions render the stretch between tokens' % len(ks)); return r
    key = ks[0]; sty = P.raw[key]['locals'][1].lstrip('&')
    path = P.adt_path(sty); fs = P.byPath[path]['v'][0]['f']
    ckey = writer.comment_writer_key(P)
    for Ls, Rs in CASES:
        for L in Ls:
            for R in Rs:
                for hint in ('', ' '):
                    r['cases'] += 1
                    for mid in (1, 2): one_gap(P, r, key, path, fs, ckey, L, R, hint, mid)
    return r
def one_gap(P, r, key, path, fs, ckey, L, R, hint, mid):
    n = len(L); chars = []; facts = {}
    for i, s in enumerate(L + ['m'] * mid + [R]):
        if s == 'm': chars.append(('c', ('x', 'm%d' % i))); facts[('x', 'm%d' % i)] = ('!', frozenset(('ch', ord(c)) for c in X + ['.', '[', '-'])); continue
        if len(s) == 1: chars.append(s[0])
        else: chars.append(('c', ('x', 'k%d' % i))); facts[('x', 'k%d' % i)] = ('in', frozenset(('ch', ord(c)) for c in s))
    mk = lambda cs: ('S', tuple(cs)) if cs else ''
    T = mk(chars)
    def h_parse(I, st, c, a, ln):
        return [(st, ok(('cnode', I.deref(st, a[0]))))]
    def h_comment(I, st, c, a, ln):
        out = []
        for k in KINDS:
            s = st.copy()
            p = {'nothing': (), 'blanks': (' ', ('t', ('x', 'more'))), 'line break': ('\n', ('t', ('x', 'more'))), 'one-line comment': ('--', ('t', ('x', 'more')), '\n'), 'long comment': ('--[[', ('t', ('x', 'more')), ']]')}[k]
            models.append(I, s, a[1], ('S', p) if p else '')
            s.heap['kind'] = k
            out.append((s, OKU))
        return out
    def h_slice(I, st, v, lo, hi, ln):
        if v == T:
            pos = lambda x: 0 if x == 0 else x[1] if isinstance(x, tuple) and x[0] == 'bp' else None
            a, b = pos(lo), pos(hi) if hi is not None else None
            if isinstance(a, int) and isinstance(b, int) and 0 <= a <= b <= len(chars): return [(st, mk(chars[a:b]))]
            raise Undecided('slice %r %r' % (lo, hi))
        return None
    I = Interp(P, {ckey: h_comment, 'luafmt::parser::parse_comment': h_parse, 'model:slice': h_slice})
    I.nomerge = True
    st = St(); st.facts.update(facts)
    st.heap['f'] = mk(chars[:n]); st.heap['state'] = writer.state_value(P, {'pos_range': none()}); st.heap['loc'] = ('A', writer.LOC, 0, (n, n + mid)); st.heap['kind'] = None
    flds = []
    for nm, ty in fs:
        if 'Loc' in ty: flds.append(('&', ('H', 'loc'), ()))
        elif 'str' in ty: flds.append(hint)
        else: r['unclear'].add('field of type %s in %s' % (ty, path)); return
    st.heap['self'] = ('A', path, 0, tuple(flds))
    cfg = writer.cfg_value(P)
    try: outs = I.run(st, key, [('&', ('H', 'self'), ()), ('&', ('H', 'f'), ()), cfg, T, ('&', ('H', 'state'), ())])
    except Undecided as e: r['unclear'].add('rendering between tokens: %s' % (e,)); return
    r['fns'] |= I.visited; r['sites'] += I.callsites
    for s, res in outs:
        r['outs'] += 1
        if isinstance(res, tuple) and res[0] == 'A' and res[1] == RES and res[2] == 1: continue
        got = list(models.pieces(s.heap['f'])) if not isinstance(s.heap['f'], str) else [s.heap['f']]
        flat = []
        for p in got: flat += list(p) if isinstance(p, str) else [p]
        want = []
        for p in chars[:n]: want += [p]
        if flat[:n] != want: r['unclear'].add('the text before changes: %r' % (flat,)); continue
        rest = flat[n:]
        kind = s.heap['kind']
        def flag(o):
            t = ('x', 'o:' + o); d = s.facts.get(('d', t))
            if d == ('in', frozenset([0])): return False
            return s.known(('f', t, 1, 0)) if d == ('in', frozenset([1])) else None
        lt, rt = show(s, chars[:n]), show(s, [chars[-1]])
        what = '%s | %s' % (lt, rt)
        if kind == 'nothing':
            if all(flag(o) is False for o in ('remove_spaces_between_tokens', 'remove_comments', 'remove_single_newlines', 'remove_all_newlines')): continue
            if rest: 
                if all(isinstance(c, str) and c.isspace() for c in rest): continue
                r['unclear'].add('written between tokens: %r' % (rest,)); continue
            if flag('remove_spaces_between_tokens') is True and flag('replace_zero_spaces_with_hint') is not True: m = 'where blanks are removed and not replaced by hints'
            elif flag('replace_zero_spaces_with_hint') is True: m = 'where nothing is left between them and hints are written'
            else: m = 'where nothing but comments or line breaks are removed between them'
            r['bad'].setdefault('neighbouring tokens run together ' + m, what)
        elif kind is None:
            if rest[:1] and (rest[0] == chars[n]): continue
            r['unclear'].add('the stretch is not rendered: %r' % (rest,))
        elif kind in ('one-line comment', 'long comment'):
            if L[-1] != ['-']: continue
            i = rest.index('-') if '-' in rest else 0
            if i == 0: r['bad'].setdefault('a minus sign runs together with the comment after it', what)
            elif not any(isinstance(c, str) and c.isspace() for c in rest[:i]):
                # an option's text: known to be blank, but is it known not to be empty?
                if not all(nonempty(I, s, c) for c in rest[:i]): r['bad'].setdefault('a minus sign runs together with the comment after it', what)
        else:
            if not (rest and isinstance(rest[0], str) and rest[0].isspace()): r['unclear'].add('blanks between tokens come out as %r' % (rest,))
def nonempty(I, s, p):
    if p[0] != 't': return False
    for t, d in s.facts.items():
        if t[0] == 'b' and t[1] == 'empty' and t[2] in (p[1], ('S', (p,)), (p,)) and d == ('in', frozenset([False])): return True
    return I.eval_bool(s, ('b', 'empty', p[1])) is False
def show(s, cs):
    out = ''
    for c in cs:
        if isinstance(c, str): out += c
        else:
            d = s.facts.get(c[1])
            out += min(chr(x[1]) for x in d[1]) if d and d[0] == 'in' else '?'
    return out

# ---- (2)
class SWriter(writer.Writer):
    strict = True
    def __init__(self, prog, key):
        super().__init__(prog)
        self.I.hooks[key] = self.h_gap
        self.fs = prog.byPath[prog.adt_path(prog.raw[key]['locals'][1].lstrip('&'))]['v'][0]['f']
    def h_gap(self, I, st, c, a, ln):
        v = I.deref(st, a[0])
        loc = [I.deref(st, x) for x, (n, t) in zip(v[3], self.fs) if 'Loc' in t]
        if len(loc) != 1 or loc[0][0] != 'A': return NotImplemented
        s2 = st.copy()
        models.append(I, st, a[1], ('S', (('gap',) + loc[0][3],))); self.dirty(I, st, a[4])
        models.append(I, s2, a[1], ('S', (('ERR',),))); self.dirty(I, s2, a[4], True)
        return [(st, OKU), (s2, err(FMTERR))]
    def norm(self, ps, keep_lead=True):
        out = []
        for p in ps:
            if isinstance(p, str):
                for w in re.split(r'(\s+)', p):
                    if w: out.append(('WS',) if w.isspace() else ('k', w))
            elif p[0] == 'ws' or p[0] == 't' and p[1] in self.blank: pass
            elif p[0] == 'rep' and all((not isinstance(x, str)) and x[0] == 't' and x[1] in self.blank or isinstance(x, str) and x.isspace() for x in p[1]): pass
            elif p[0] == 'trim': out += [('gapt',) + q[1:] if q[0] == 'gap' else q for q in self.norm(p[2]) if q[0] not in ('ws', 'WS')]
            elif p[0] == 'raw' and (p[1], p[2]) in self.gaps: out.append(('rawgap', p[1], p[2]))
            elif p[0] == 'S': out += [q for q in self.norm(p[1]) if q != ('ws',)]
            else: out.append(p)
        q = []
        for p in out:
            if p == ('WS',) and q and q[-1] == p: continue
            q.append(p)
        q.append(('ws',))
        return tuple(q)
    EV = writer.Writer.EV + ('gapt', 'rawgap', 'WS')
    def h_pop(self, I, st, ref, v, l):
        chars = st.facts.get(('f', l, 1, 0))
        if chars and chars[0] == 'in' and all(isinstance(x, tuple) and x[0] == 'ch' and chr(x[1]) in ' \t\n\r' for x in chars[1]):
            ps = [p for p in pieces(v) if p != ('ws',)]
            if ps and (ps[-1] == ('WS',) or isinstance(ps[-1], str) and ps[-1].isspace()): ps.pop()
            elif ps and ps[-1][0] in ('gap', 'gapt', 'rawgap'): ps[-1] = ('gapt',) + ps[-1][1:]
            elif ps and not isinstance(ps[-1], str) and ps[-1][0] == 'gap0': pass
            models.upd(I, st, ref, ('S', tuple(ps) + (('ws',),)))
            return [(st, l)]
        return super().h_pop(I, st, ref, v, l)
    def h_trim(self, I, st, v, side, cls):
        if side != 'r' or cls == 'ws' or not all(ch in ' \t' for ch in cls): return None
        ps = pieces(v)
        if any(not isinstance(p, str) and p[0] not in ('gap', 'gap0', 'ws', 'raw', 'gapt', 'rawgap', 'WS') for p in ps): return None
        return [(st, ('S', (('trim', side, ps),)))]
    def exit(self, I, f, args, outs, tok):
        tok = {i: x for i, x in tok.items() if i != 'cfg'}
        if not tok or not outs: return I.merge_outs(outs)
        res = []
        for s, r in outs:
            isErr = isinstance(r, tuple) and r[0] == 'A' and r[1] == RES and r[2] == 1
            ends = self.newlines(s)
            for i, (k, v) in tok.items():
                cur = I.deref(s, args[i])
                if k == 's':
                    ps = pieces(cur)
                    if isErr: new = tuple(v) + ((('ERR',),) if ps != v else ())
                    elif ps == v and not ends: continue
                    else:
                        out = []
                        for j, p in enumerate(ps):
                            out.append(p)
                            if any(ps[max(0, j + 1 - len(e)):j + 1] == e for e in ends): out.append('\n')
                        new = self.norm(out) if ps != v or len(out) != len(ps) else ps
                    if new != ps: models.upd(I, s, args[i], ('S', tuple(new)) if new else '')
                elif cur[0] == 'A' and v[0] == 'A' and cur != v:
                    fs = list(cur[3])
                    for n in ('comment_pos_range', 'comment_offset'):
                        j = self.sidx.get(n)
                        if j is not None and fs[j] != v[3][j]: fs[j] = ('x', 'hv:' + n)
                    models.upd(I, s, args[i], ('A', cur[1], cur[2], tuple(fs)))
            for t in [t for t in s.facts if writer.volatile(t)]: del s.facts[t]
            res.append((s, self.nval(r)))
        return I.merge_outs(res)
    def newlines(self, s):
        """texts known to end with a line break"""
        out = set()
        for t, d in s.facts.items():
            if d[0] != 'in' or len(d[1]) != 1: continue
            x = next(iter(d[1]))
            if t[0] == 'eq' and x is True:
                for a, b in ((t[1], t[2]), (t[2], t[1])):
                    if isinstance(a, tuple) and a[:1] == ('lastch',) and b == some(('ch', 10)): out.add(pieces(a[1]))
            elif t[0] == 'f' and isinstance(t[1], tuple) and t[1][:1] == ('lastch',) and x == ('ch', 10): out.add(pieces(t[1][1]))
        return out
def one(prog, G, key, p, d, risky):
    out = {'prod': repr(p), 'nt': p.nt, 'leaves': G.leaves(d), 'bad': set(), 'unclear': set(), 'outs': 0, 'obl': 0, 'fns': set(), 'sites': 0}
    try:
        I = Interp(prog)
        leaves, v, l, r = G.build(I, d)
        if not (isinstance(v, tuple) and v[0] == 'A'): out['skip'] = True; return out
        out['node'] = prog.byPath[v[1]]['v'][v[2]]['n']
        W = SWriter(prog, key); W.setup(leaves)
        gi = {(leaves[i][2], leaves[i + 1][1]): i for i in range(len(leaves) - 1)}
        need = {g for g, i in gi.items() if risky(leaves[i][0], leaves[i + 1][0])}
        out['obl'] = len(need)
        if not need: return out
        for n in {v: 1}:
            for s, res, ps in W.write(n):
                out['outs'] += 1
                if isinstance(res, tuple) and res[0] == 'A' and res[1] == RES and res[2] == 1: continue
                judge(out, leaves, gi, need, ps)
        out['fns'] = set(W.I.visited); out['sites'] = W.I.callsites
    except Undecided as e: out['unclear'].add(str(e)[:200])
    return out
def judge(out, leaves, gi, need, ps):
    """between the last piece of one token and the first of the next something must be left, where the two would merge"""
    have = set(); ws = True; prev = None; nxt = 0
    vals = [l[3] for l in leaves]
    def owner(p):
        """the leaf a piece belongs to"""
        if p[0] in ('sub', 'subl', 't') and p[1] in vals: return vals.index(p[1])
        return None
    cut = []
    for p in ps:
        if p[0] == 'WS': ws = True
        elif p[0] in ('gap', 'rawgap'): ws = True
        elif p[0] == 'gapt': cut.append(p)
        elif p[0] in ('k', 't', 'sub', 'subl', 'self', 'rep', 'raw'):
            if not ws and prev is not None:
                for c in cut:
                    if (c[1], c[2]) in need:
                        i = gi[(c[1], c[2])]
                        out['bad'].add('nothing is left between %s and %s where the blanks between them are cut off' % (leaves[i][0], leaves[i + 1][0]))
                if not cut:
                    a, b = owner(prev), owner(p)
                    for (l, r), i in gi.items():
                        if (l, r) not in need: continue
                        if (a == i or a is None and b == i + 1 and spelled(leaves[i][0], prev)) and (b == i + 1 or b is None and spelled(leaves[i + 1][0], p)):
                            out['bad'].add('nothing is left between %s and %s where the stretch between them comes out empty' % (leaves[i][0], leaves[i + 1][0]))
            prev = p; ws = False; cut = []
def spelled(sym, p): return p[0] == 'k' and sym == '"%s"' % p[1]
_c = {}
def _init(outdir, cap):
    prog = Prog(outdir); G = Grammar(prog); fs, ls, _ = ends(G)
    cache = {}
    def risky(a, b):
        k = (a, b)
        if k not in cache: cache[k] = any(merges(x, y) for s in ls(a) for t in fs(b) for x in samples(G, s) for y in samples(G, t))
        return cache[k]
    _c.update(p=prog, g=G, cap=cap, risky=risky, key=hint_key(prog), d={})
def _work(j):
    try: return _work1(j)
    finally: ai.flushlog()
def _work1(ij):
    i, j = ij; G = _c['g']; p = G.live[i]
    if i not in _c['d']: _c['d'][i] = G.derivations(p, _c['cap'])
    try: return one(_c['p'], G, _c['key'][0], p, _c['d'][i][j], _c['risky'])
    except Exception as e: return {'prod': repr(p), 'nt': p.nt, 'leaves': G.leaves(_c['d'][i][j]), 'bad': set(), 'unclear': {'%s: %s' % (type(e).__name__, e)}, 'outs': 0, 'obl': 0, 'fns': set(), 'sites': 0}
def run_all(outdir, cap):
    _init(outdir, cap)
    if len(_c['key']) != 1: return []
    G = _c['g']
    js = [(i, j) for i, p in enumerate(G.live) if G.is_node(p.nt) for j in range(len(G.derivations(p, cap)))]
    js.sort(key=lambda ij: -len(G.leaves(G.derivations(G.live[ij[0]], cap)[ij[1]])))
    with mp.get_context('fork').Pool(8) as pool: return pool.map(_work, js, chunksize=1)
def results(ctx):
    return ctx.cached('merge%d' % ctx.deep, lambda: {'gap': run_gap(ctx), 'cons': run_all(ctx.outdir, 3 if ctx.deep else 2)})
