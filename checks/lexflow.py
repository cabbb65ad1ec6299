"""The Lua lexer, explored in step with the reference automaton of Lua 5.3's lexical rules, for every text."""
import ai, stream, luaref, grammar, models
from ai import *
from stream import Stream, EOF, add

def lexer(prog, mod):
    ks = [k for k in prog.raw if prog.raw[k]['path'].endswith(mod + '::Lexer') or ('%s::Lexer' % mod) in k]
    new = [k for k in ks if k.endswith('::new')]
    nxt = [k for k in ks if k.endswith('::next') and 'Iterator' in k]
    return new, nxt

def text_hooks(S, ref):
    """comparisons of the text of the current name with words: the reference knows which keyword it is, if any"""
    I = S.I
    def word(st, v):
        """the text of v: a str, or None when it is some word that is no keyword, or NotImplemented"""
        if isinstance(v, str): return v
        if isinstance(v, tuple) and v and v[0] == 'S':
            ps = S.absorb(st, v[1])
            h = st.heap
            if len(ps) == 1 and not isinstance(ps[0], str) and ps[0][0] == 'sl' and ps[0][1] == h[('s', 'ts')] and ps[0][2] == h[('s', 'c')]:
                r = h[('s', 'ref')]
                if r[0] == 'name': return r[1]
        return NotImplemented
    def get(I, st, c, a, ln):
        mp = I.deref(st, a[0]); k = I.deref(st, a[1])
        es = None
        for x in stream.walk(mp):
            if isinstance(x, tuple) and x and x[0] == 'V' and x[1] and all(isinstance(y, tuple) and y[0] == 'T' and isinstance(y[1][0], str) for y in x[1]): es = x[1]
        if es is None: return NotImplemented
        w = word(st, k)
        if w is NotImplemented: return NotImplemented
        out = []
        for e in es:
            key, val = e[1]
            if w is None:
                if key in luaref.PREFIX: continue
                out.append((st.copy(), some(val)))
            elif key == w: return [(st, some(val))]
        out.append((st, none()))
        return out
    I.hooks['phf::map::Map::<K, V>::get'] = get
    I.hooks['std::collections::hash::map::HashMap::<K, V, S>::get'] = get
    def eq(I, st, c, a, ln):
        ne = (c.p or c.r).endswith('ne')
        a = [I.deref(st, z) for z in a]
        for x, y in ((a[0], a[1]), (a[1], a[0])):
            if isinstance(y, str) and isinstance(x, tuple):
                w = word(st, x)
                if w is NotImplemented: continue
                if w is not None: return [(st, (w == y) != ne)]
                if y in luaref.PREFIX: return [(st, ne)]
        return None
    I.hooks['model:eq'] = eq
    I.hooks['phf::map::Map::<K, V>::contains_key'] = lambda I, st, c, a, ln: [(s, v[2] == 1) for s, v in get(I, st, c, a, ln)]

def stream_at(v):
    """positions of the readers of the text inside v, and v with them blanked"""
    ps = []
    def go(v):
        if isinstance(v, tuple) and v and v[0] == 'It' and v[1] == 'stream': ps.append(v[2]); return ('reader',) + v[3:]
        return tuple(go(x) for x in v) if isinstance(v, tuple) else v
    return go(v), ps

class Run: pass

def explore(prog, mod, ref, extra=4):
    new, nxt = lexer(prog, mod)
    if len(new) != 1 or len(nxt) != 1: raise Undecided('lexer of %s not found' % mod)
    S = Stream(prog, ref, ref.start, prefix=luaref.LMAX + extra, win=luaref.LMAX + 3)
    text_hooks(S, ref)
    I = S.I
    outs = I.run(S.initial(), new[0], [('x', 'input')])
    R = Run(); R.S = S; R.out = []; R.mod = mod; R.again = []; R.gaveup = None; R.fns = [new[0], nxt[0]]
    for s, v in outs:
        fresh, ps = stream_at(v)
        if ps != [('p', 0)]: raise Undecided('the lexer does not start at the start of the text')
        s.heap['lexer'] = v; s.facts = {}
        I.watch = nxt[0]
        try: rs = I.run(s, nxt[0], [('&', ('H', 'lexer'), ())])
        except Undecided as e:      # what was found until then still counts
            R.gaveup = str(e); rs = []
            for s2, r in I.watched:
                if ('s', 'c') in s2.heap: s2.frames.append({0: r}); S.normal(s2); rs.append((s2, s2.frames.pop()[0]))
        I.watch = None
        for s2, r in rs:
            after, ps = stream_at(s2.heap['lexer'])
            R.out.append((s2, r, after == fresh and ps == [s2.heap[('s', 'c')]]))
            # the end of the text is reported once
            if r[0] == 'A' and r[2] == 1 and r[3][0][0] == 'A' and r[3][0][2] == 0 and after != fresh:
                s3 = s2.copy()
                for k in [k for k in s3.heap if k[0] == 'lh']: del s3.heap[k]
                R.again += [(s2, q) for s4, q in I.run(s3, nxt[0], [('&', ('H', 'lexer'), ())])]
    return R

def wit(s, extra=''): return repr(s.heap[('s', 'wit')] + extra)[1:-1]
def show(v):
    if isinstance(v, tuple) and v and v[0] == 'S': return '+'.join(show(x) if isinstance(x, str) else 'source[%s..%s]' % (pos(x[1]), pos(x[2])) if x[0] == 'sl' else repr(x) for x in v[1])
    if isinstance(v, tuple) and v: return pos(v)
    return repr(v)
def pos(t):
    p = stream.position(t)
    if p: return 'p%d%+d' % (p[0][1], p[1])
    return repr(t)

def same_text(S, s, v, a, b):
    """is v the text from a to b?"""
    ps = S.absorb(s, models.pieces(v)) if v != '' else ()
    if not ps: return S.I.simp_eq(s, a, b) is True
    if len(ps) == 1 and not isinstance(ps[0], str) and ps[0][0] == 'sl':
        return S.I.simp_eq(s, ps[0][1], a) is True and S.I.simp_eq(s, ps[0][2], b) is True
    if len(ps) == 1 and isinstance(ps[0], str):        # a literal: compare with the known characters
        for i, x in enumerate(ps[0]):
            if S.I.char1(s, ('at', add(a, i))) != ('ch', ord(x)): return False
        return S.I.simp_eq(s, add(a, len(ps[0])), b) is True
    return False

def judge(R, G, ref):
    """findings: (property, key, text)"""
    S = R.S; out = []; seen = set(); unclear = []
    def bad(p, key, text):
        if (p, key) not in seen: seen.add((p, key)); out.append((p, key, text))
    term = {v: k.strip('"') for k, v in G.tokvar.items()}
    reached = set()
    for s, r, clean in R.out:
        h = s.heap; q = h[('s', 'ref')]; c = h[('s', 'c')]; ts = h[('s', 'ts')]
        d = s.facts.get(('at', c)); N = d[1] if d else S.alpha
        fin = ref.final(q)
        if not (r[0] == 'A' and r[1].endswith('Option')): unclear.append('result %r' % (r,)); continue
        if r[2] == 0: bad('C06', 'none %r' % (q,), 'after "%s" the lexer stops without reporting the end of the text' % wit(s)); continue
        res = r[3][0]
        if not (isinstance(res, tuple) and res[0] == 'A' and res[1].endswith('Result')): unclear.append('result %r' % (res,)); continue
        # what the next character would do
        go = {}; on = {}
        for ch in N:
            if ch == EOF: go.setdefault('end', []).append(ch); continue
            w = ref.step(q, ch[1])
            go.setdefault('dead' if w is None else 'over' if w == ('over',) else 'on', []).append(ch)
            if w is not None and w != ('over',): on.setdefault(w, []).append(ch)
        def short(t):
            for w, cs in sorted(on.items(), key=repr):
                bad('C06', 'short %s %s to %s' % (t, q, w), 'token %s ends after "%s" although "%s" belongs to it' % (t, wit(s), stream.show(cs)))
        if res[2] == 1:
            if 'on' in go and q != ref.start: bad('C06', 'error %s on %s' % (q, sorted(on, key=repr)[0]), 'after "%s" an error is reported although "%s" may follow' % (wit(s), stream.show(go['on'])))
            elif ('end' in go or 'over' in go) and fin != 'bad' and not (q == ref.start):
                bad('C06', 'error %s' % (q,), 'an error is reported for the complete token "%s"' % wit(s))
            elif q == ref.start:
                ok = [ch for ch in N if ch == EOF or ref.step(q, ch[1]) is not None]
                if ok: bad('C06', 'error at start %s' % stream.show(ok), 'an error is reported after "%s" for "%s"' % (wit(s), stream.show(ok)))
            continue
        tup = res[3][0]
        if not (isinstance(tup, tuple) and tup[0] == 'T' and len(tup[1]) == 3 and tup[1][1][0] == 'A'): unclear.append('token %r' % (tup,)); continue
        l, T, e = tup[1]
        t = term.get(T[2], 'token %d' % T[2])
        if t == 'EOF':
            if fin != ('none',) or set(go) != {'end'}:
                bad('C06', 'EOF %s' % (q[0],), 'the end of the text is reported after "%s"%s' % (wit(s), '' if set(go) != {'end'} else ', a %s that the lexer did not see' % ('name' if q[0] == 'crname' else 'token')))
            elif l != ('len',) or e != ('len',): bad('C05', 'EOF span', 'the end of the text is reported at %s..%s' % (pos(l), pos(e)))
            reached.add('EOF'); continue
        if fin == ('none',) or ts is None: bad('C06', 'token %s in %s' % (t, q[0]), 'token %s is reported after "%s", which is blank space' % (t, wit(s))); continue
        if fin == 'bad':
            if q[0] in ref.unfinished: bad('C06', 'unfinished %s' % q[0], 'token %s is reported for the unfinished "%s"' % (t, wit(s)))
            else: short(t)
            continue
        short(t)
        want, parts = ref.kind(fin)
        if t != want:
            bad('C05', 'kind %s' % (fin,), 'the text "%s" is reported as the token %s' % (wit(s), t)); continue
        reached.add(fin if fin[0] in ('long', 'many') else want)
        if S.I.simp_eq(s, l, ts) is not True or S.I.simp_eq(s, e, c) is not True:
            bad('C05', 'span %s' % t, 'token %s for "%s" is reported at %s..%s instead of %s..%s' % (t, wit(s), pos(l), pos(e), pos(ts), pos(c)))
        pl = T[3]
        ok = not parts or len(pl) == len(parts) and all(x == y if isinstance(y, int) else same_text(S, s, x, add(ts, y[0]), add(c, -y[1])) for x, y in zip(pl, parts))
        if not ok: bad('C05', 'text %s' % t, 'token %s for "%s" carries the text %s' % (t, wit(s), ' '.join(show(x) for x in pl)))
        if not clean: unclear.append('the lexer keeps more than its position after %s' % t)
    for q, (w, ch) in S.over.items():
        bad('C06', 'over %s' % (q,), 'the lexer reads on after the complete token in "%s"' % repr(w)[1:-1])
    for f, b, w in S.progress:
        bad('C20', 'loop %s' % f, 'a loop of %s makes no progress on "%s"' % (f, repr(w)[1:-1]))
    for p in S.I.panics: bad('C17', 'panic %s' % (p,)[0], 'reading a text: %s' % (p,))
    if R.gaveup: unclear.append(R.gaveup); return out, unclear
    if not R.again: unclear.append('the state after the end of the text')
    for s, q in R.again:
        if not (q[0] == 'A' and q[2] == 0): bad('C20', 'end again', 'after the end of the text the lexer goes on')
    missing = [o for o in ref.kinds() + ['EOF'] if o not in reached]
    if missing: bad('C06', 'never %s' % ' '.join(map(str, missing)), 'no text is ever read as %s' % ' '.join(map(str, missing)))
    return out, unclear

def run(ctx, mod):
    res = {'out': [], 'unclear': [], 'cov': {}}
    com = mod == 'comment_lexer'
    for lmax in (0, 4) if ctx.deep else (0, 2):        # the shorter brackets first: what goes wrong with them need not wait
        luaref.LMAX = lmax
        ref = luaref.Comments() if com else luaref.Lua()
        try:
            R = explore(ctx.prog, mod, ref, 6 if com else 4)
            out, unclear = judge(R, grammar.Grammar(ctx.prog, 'comment_syntax') if com else ctx.grammar, ref)
        except Undecided as e:
            res['unclear'].append('%s: %s' % (mod, e)); break
        S = R.S
        res['out'] += [x for x in out if (x[0], x[1]) not in set((y[0], y[1]) for y in res['out'])]; res['unclear'] += unclear
        res['cov'] = {'states': S.states, 'results': len(R.out), 'functions': sorted(S.I.visited), 'reference_states_at_results': len(set(repr(s.heap[('s', 'ref')]) for s, _, _ in R.out)),
                      'samples': sorted(set(wit(s) for s, _, _ in R.out), key=lambda w: (len(w), w))[:40:4]}
        if R.gaveup: break
    return res
def results(ctx, mod='lua_lexer'): return ctx.cached('%s%d' % (mod, ctx.deep), lambda: run(ctx, mod))
def report(ctx, rep, pids, rule, mod='lua_lexer'):
    r = results(ctx, mod)
    c = r['cov']
    rep.cov.update({'lexer_states_explored': c.get('states', 0), 'token_outcomes': c.get('results', 0), 'functions_analysed': len(c.get('functions', [])), 'rule': rule, 'samples': c.get('samples', [])})
    for u in r['unclear']: rep.unclear(u)
    rep.assumptions += ['the reference automaton (engine/luaref.py) states the lexical rules of the Lua 5.3 manual', 'non-ASCII characters behave like one of %d representatives' % len(stream.NONASCII),
                        'long brackets with up to %d equals signs, and runs of up to %d of them inside, are followed' % ((4, 5) if ctx.deep else (2, 3)),
                        'the MIR dumper, the abstract interpreter and its models of std']
    for p, k, t in r['out']:
        if p in pids: rep.bad(k, t)
