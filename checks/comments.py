"""The writer of the comment tree: every production of the comment grammar with its children symbolic, and the two kinds of comment with their text
given as characters known by class and an unknown middle."""
import itertools
from ai import *
from grammar import Grammar
import writer, models
from constructs import Bad, Unclear

BL = frozenset(('ch', ord(x)) for x in ' \t\r\x0b')
OTHER = frozenset(('ch', ord(x)) for x in 'aZ0_-\'"\\.;,()\u00e9')
def lead_sets(n): return [[('c', ('x', 'b%d' % i)) for i in range(n)]]

class CWriter(writer.Writer):
    """writer of the comment tree; the text handed to it is BUF, whose first character has position OFF in the source"""
    def __init__(self, prog):
        super().__init__(prog, rawmode=True)
        self.wkey = self.ckey
        I = self.I
        I.hooks.pop(self.rkey, None)
        I.hooks[self.ckey] = self.h_node
        I.on_run = self.counted
        I.enter_view = None
        I.exit_view = lambda I, f, args, outs, tok: I.merge_outs(outs)
        I.hooks['model:c2b'] = self.h_map
    def h_map(self, k):
        """byte position of character k: relative to the start of the block where k is"""
        x = add(k, ('x', 'OFF'), -1)
        if not any(t == ('x', 'OFF') for t in models.walk(x)): return add(('bp', ('x', 'OFF')), 0 if x == 0 else ('rb', x))
        return models.bp(k)
    def dirty(self, I, st, ref, failed=False): pass          # the state is left alone, as every arm is found to do
    def h_slice(self, I, st, v, lo, hi, ln):
        if v == ('x', 'BUF'):
            def pos(x): return 0 if x == 0 else x[1] if isinstance(x, tuple) and x[0] == 'rb' else None
            a, b = pos(lo), pos(hi) if hi is not None else None
            if a is not None and b is not None:
                if a == b: return [(st, '')]
                return [(st, ('S', (('raw', a, b),)))]
            return [(st, ('S', (('badslice', lo, hi),)))]
        return None

def opt_cases(): return [('unset', none()), ('empty', some('')), ('blank', some(('S', (('c', ('x', 'h')),))))]
def flag_cases(): return [none(), some(True), some(False)]

def node_results(prog, cap):
    """every production, its parts symbolic"""
    G = Grammar(prog, 'comment_syntax')
    res = []
    kinds = {}                    # what a child can be
    for p in G.live:
        if not G.is_node(p.nt): continue
        for d in G.derivations(p, 1):
            l, v, _, _ = G.build(Interp(prog), d)
            if v[0] == 'A': kinds.setdefault(p.nt, set()).add(v[2])
    for p in G.live:
        if not G.is_node(p.nt): continue
        for d in G.derivations(p, cap):
            if cap > 2 and len(G.leaves(d)) > 5: continue
            r = {'prod': repr(p), 'leaves': G.leaves(d), 'bad': set(), 'unclear': set(), 'outs': 0, 'fns': set(), 'sites': 0}
            res.append(r)
            try:
                I = Interp(prog)
                leaves, v, l, rr = G.build(I, d)
                if not (isinstance(v, tuple) and v[0] == 'A'):
                    if len(leaves) == 1 and v == leaves[0][3]: continue
                    r['unclear'].add('value %r' % (v,)); continue
                r['node'] = prog.byPath[v[1]]['v'][v[2]]['n']
                r['value'] = v
                if any(x in ('OneLineComment', 'MultiLineComment') for x in r['leaves']): continue        # the text cases below
                W = CWriter(prog)
                W.setup(leaves)
                outs = W.write(v, {'comment_offset': ('x', 'OFF')}, facts={('d', l[3]): ('in', frozenset(kinds[l[0]])) for l in leaves if l[0] in kinds})
                for s, rs, ps in outs:
                    r['outs'] += 1
                    if rs[0] == 'A' and rs[1] == RES and rs[2] == 1: continue
                    try: seq(prog, G, leaves, ps, s, v, W); same_state(prog, s)
                    except Bad as b: r['bad'].add(b.msg)
                    except Unclear as u: r['unclear'].add(str(u))
                r['fns'] = set(W.I.visited); r['sites'] = W.I.callsites
            except Undecided as e: r['unclear'].add('writer: %s' % (e,))
    return res

def same_state(prog, st):
    fs = st.heap['state'][3]
    for i, (nm, ty) in enumerate(prog.byPath['luafmt::config::State']['v'][0]['f']):
        want = ('x', 'OFF') if nm == 'comment_offset' else ('x', 'c2b') if 'HashMap' in ty else ('x', 's:' + nm)
        if fs[i] != want: raise Bad('state', 'the running state (%s) is changed' % nm)
def known_opt(st, name):
    """what a path knows about an option: 'unset', its value, or None"""
    t = ('x', 'o:' + name)
    d = st.facts.get(('d', t))
    if d and d[0] == 'in' and len(d[1]) == 1:
        if 0 in d[1]: return 'unset'
        f = st.facts.get(('f', t, 1, 0))
        if f and f[0] == 'in' and len(f[1]) == 1: return next(iter(f[1]))
    f = st.facts.get(('f', t, 1, 0))
    if f and f[0] == 'in' and len(f[1]) == 1: return next(iter(f[1]))
    return None

def seq(prog, G, leaves, ps, st, node, W):
    """the parts are written once each, in order; blanks and line breaks in between are free"""
    ps = list(ps)
    if not ps or ps[0] != ('pre',): raise Bad('token', 'text written before the comment block is changed')
    ps = [p for p in W.norm(ps[1:]) if p != ('ws',)]
    i = 0
    L = [l[1] for l in leaves]; R = [l[2] for l in leaves]
    n = len([l for l in leaves if l[0] != 'EOF'])
    for p in ps:
        if p[0] == 'self' and i == 0: i = n; continue
        if p[0] == 'sub':
            if i < n and leaves[i][3] == p[1]: i += 1; continue
            raise Bad('order', 'a part is written out of order or twice')
        if p[0] == 'raw':
            a, b = p[1], p[2]
            if a in R and b in L and R.index(a) + 1 == L.index(b): continue             # blanks between two parts
            if (a == L[0] or a == 0) and b == (R[n - 1] if n else L[0]) and i == 0: i = n; continue
            if (a == L[0] or a == 0) and n < len(L) and b in (L[n], R[n]) and i == 0: i = n; continue
            if a == 0 and b == L[0] and i == 0: continue
            if a == b: continue
            raise Bad('token', 'the source is copied between the wrong positions')
        if p[0] == 'popped?' or p[0] == 'popped': raise Bad('token', 'a character that need not be blank is removed from the text before')
        if p[0] == 'badslice': raise Bad('token', 'the source is copied from a place that does not allow for the position of the comment block')
        if p[0] == 'k': raise Bad('token', '%r is written' % p[1])
        if p[0] == 't' and isinstance(p[1], tuple) and p[1][0] == 'f' and str(p[1][1][1]).startswith('o:'): raise Bad('token', 'the text of option %s is written' % p[1][1][1][2:])
        raise Unclear('piece %r' % (p,))
    if i == n: return
    kinds = set(l[0] for l in leaves[:n])
    if kinds <= {'NewLine', 'NewLineList', '"\\n"'}: return                              # line breaks alone are layout
    if i < n and leaves[i][0] == 'NewLineList' : pass
    raise Bad('token', '%s is not written' % leaves[i][0])

# ---- the two kinds of comment
def text_cases(kind, deep):
    """[(label, pieces, facts, lead, core, trail, opens)]; b: blank characters, o: other characters"""
    def sym(n, s): facts[('x', n)] = ('in', s); return ('c', ('x', n))
    M = (('t', ('x', 'MID')),)
    out = []
    lv = 3 if deep else 2
    for nb in (0, 1, 2):
        for nt in (0, 1, 2):
            heads = [('e', None)] + [('o', '')] + [('[' + '=' * k + 'o', '[' + '=' * k) for k in range(lv + 1)] + [('=o', '=')]
            if kind == 'one':
                if nb: heads += [('[' + '=' * k + '[', '[' + '=' * k + '[') for k in range(lv + 1)]
                heads += [('[' + '=' * k + ' end', '[' + '=' * k) for k in range(lv + 1)]
            tails = [('', None)] if kind == 'one' else [('o', '')] + [(']' + '=' * j, ']' + '=' * j) for j in range(lv + 2)] + [('o=', '=')]
            for hl, h in heads:
                for tl, t in tails:
                    facts = {}
                    lead = tuple(sym('b%d' % i, BL) for i in range(nb)); trail = tuple(sym('t%d' % i, BL | ({('ch', 10)} if kind == 'long' else frozenset())) for i in range(nt))
                    if h is None:
                        if nt or t: continue
                        core = ()
                    else:
                        core = tuple(h)
                        if hl.endswith('end'): pass
                        else:
                            if 'o' in hl or not core: core += (sym('o1', OTHER),)
                            core += M
                        if kind == 'long':
                            if 'o' in tl: core += (sym('o2', OTHER),)
                            core += tuple(t or '')
                    out.append(('%d blanks, %s..%s, %d blanks' % (nb, hl, tl, nt), lead, core, trail, facts, h, t))
    return out

def norm(ps):
    """written text as a list of characters and opaque pieces"""
    out = []
    for p in ps:
        if isinstance(p, str): out += list(p)
        elif p[0] == 'k': out += list(p[1])
        elif p[0] == 'rep' and isinstance(p[2], int): out += norm(p[1]) * p[2]
        elif p[0] == 'S': out += norm(p[1])
        else: out.append(p)
    return out
def value(st, p):
    if not isinstance(p, str) and p[0] == 'c':
        if p[1][0] == 'ch': return chr(p[1][1])
        d = st.facts.get(p[1])
        if d and d[0] == 'in' and len(d[1]) == 1: return chr(next(iter(d[1]))[1])
    return p
def val(st, ps): return [value(st, p) for p in ps]
def opens(st, ps):
    """does the text after -- begin a long bracket?  True / False / None"""
    ps = val(st, ps)
    if not ps or ps[0] != '[': return False
    i = 1
    while i < len(ps) and ps[i] == '=': i += 1
    return i < len(ps) and ps[i] == '['

def leaf_results(prog, kind, deep, plain=False):
    vname = 'OneLineComment' if kind == 'one' else 'MultiLineComment'
    G = Grammar(prog, 'comment_syntax')
    nodes = set()
    for r in node_results(prog, 1):
        if r.get('value') and vname in r['leaves']: nodes.add(r['value'])
    out = {'outs': 0, 'cases': 0, 'bad': {}, 'unclear': set(), 'fns': set(), 'sites': 0}
    nodepath = [a for a in prog.byPath if a.endswith('comment_ast::Node')][0]
    vi = [i for i, v in enumerate(prog.byPath[nodepath]['v']) if v['n'] == vname][0]
    ftys = [t for _, t in prog.byPath[nodepath]['v'][vi]['f']]
    span = ('A', writer.LOC, 0, (('x', 'L'), ('x', 'R')))
    levels = [None] if kind == 'one' else range(4 if deep else 3)
    if kind == 'one': names = ['hint_before_oneline_comment_text']
    else: names = ['hint_before_multiline_comment_text', 'hint_after_multiline_comment_text']
    cases = text_cases(kind, deep)
    for lv in levels:
        for label, lead, core, trail, facts, h, t in cases:
            if lv is not None and t and t[0] == ']' and t == ']' + '=' * lv and not trail: continue        # would end the comment earlier
            s = mkS(lead + core + trail)
            for combo in itertools.product(opt_cases()[:1] if plain else opt_cases(), repeat=len(names)):
                given = {n: v if v[2] == 0 or v[3][0] == '' else some(('S', (('c', ('x', 'h%d' % i)),))) for i, (n, (_, v)) in enumerate(zip(names, combo))}
                fx = dict(facts)
                for i in range(len(names)): fx[('x', 'h%d' % i)] = ('in', frozenset([('ch', 32), ('ch', 9)]))
                args = []
                for ty in ftys:
                    if ty.endswith('Loc'): args.append(span)
                    elif ty == 'usize': args.append(lv)
                    elif 'String' in ty: args.append(s)
                    else: out['unclear'].add('field of type ' + ty); return out
                node = ('A', nodepath, vi, tuple(args))
                what = '%s%s, %s' % (label, '' if lv is None else ', level %d' % lv, ', '.join('%s %s' % (n, c[0]) for n, c in zip(names, combo)))
                out['cases'] += 1
                try:
                    W = CWriter(prog)
                    if plain: given = dict({o: none() for o, _ in prog.byPath['luafmt::config::FormatOpts']['v'][0]['f']}, **given)
                    outs = W.write(node, {'comment_offset': ('x', 'OFF'), **({'comment_pos_range': none()} if plain else {})}, cfg=writer.cfg_value(prog, given), facts=fx)
                except Undecided as e:
                    out['unclear'].add(str(e)[:200]); continue
                out['fns'] |= set(W.I.visited); out['sites'] += W.I.callsites
                for st, rs, ps in outs:
                    out['outs'] += 1
                    if rs[0] == 'A' and rs[1] == RES and rs[2] == 1:
                        continue
                    try:
                        if not plain: same_state(prog, st)
                        judge(st, kind, list(ps), given, names, lead, core, trail, lv)
                    except Bad as b: out['bad'].setdefault(b.msg, what)
                    except Unclear as u: out['unclear'].add('%s: %s' % (what, u))
    return out

def judge(st, kind, ps, given, names, lead, core, trail, lv):
    if not ps or ps[0] != ('pre',): raise Bad('token', 'text written before the comment is changed')
    got = norm(ps[1:])
    ws = lambda p: p == ('ws',) or value(st, p) in (' ', '\t')
    if got == [('raw', ('x', 'L'), ('x', 'R'))]: return
    got = val(st, got)
    flat = [p for p in got if not ws(p)]
    rm = known_opt(st, 'remove_comments') is True
    nl = known_opt(st, 'remove_all_newlines') is True
    if not flat or (kind == 'one' and flat == ['\n']):
        if not rm: raise Bad('lost', 'the comment is left out although remove_comments is not on')
        if kind == 'one' and not flat and not nl: raise Bad('newline', 'the line break of a removed one-line comment is left out although remove_all_newlines is not on')
        return
    if any(p[0] == 'badslice' for p in got): raise Bad('token', 'the source is copied from a place that does not allow for the position of the comment block')
    if any(p[0] == 'raw' for p in got): raise Bad('token', 'the source is copied between the wrong positions')
    for p in got:
        if not isinstance(p, str) and p[0] not in ('c', 't', 'ws'): raise Unclear('piece %r' % (p,))
    def form(n, own):
        """the texts allowed in place of the blanks `own`: themselves, or the hint"""
        o = given[n]
        return [own] + ([list(pieces(o[3][0]))] if o[2] == 1 else [])
    if kind == 'one':
        want = []
        for l in form(names[0], list(lead)):
            t = val(st, l + list(core) + list(trail))
            if not opens(st, t): want.append(['-', '-'] + t + ['\n'])
        if not core:
            # nothing but blanks
            ok_ = got[:2] == ['-', '-'] and got[-1:] == ['\n'] and all(value(st, p) == p and p in (' ', '\t') or not isinstance(p, str) and (p[0] == 'c' or p == ('ws',)) for p in got[2:-1])
            if ok_ and (given[names[0]][2] == 1 or got[2:-1] == val(st, list(lead))): return
    else:
        want = []
        eq = ['='] * lv
        for l in form(names[0], list(lead)):
            for r in form(names[1], list(trail)):
                t = val(st, l + list(core) + list(r))
                if not core and lead: t2 = [val(st, x) for x in (l, r, list(lead))]; 
                if t[-(lv + 1):] == [']'] + eq: continue
                want.append(['-', '-', '['] + eq + ['['] + t + [']'] + eq + [']'])
        if not core and any(given[n][2] == 1 for n in names):
            body = got[4 + lv:-(2 + lv)]
            if got[:4 + lv] == ['-', '-', '['] + eq + ['['] and got[-(2 + lv):] == [']'] + eq + [']'] and all(p in (' ', '\t', '\r', '\x0b', '\n') or not isinstance(p, str) and p[0] == 'c' for p in body): return
    if got in want: return
    g = ''.join(p if isinstance(p, str) else '<%s>' % (p[1][1] if p[0] in 'ct' and isinstance(p[1], tuple) else p[0]) for p in got)
    if kind == 'one' and got[-1:] != ['\n']: raise Bad('newline', 'no line break follows the comment')
    if got[:2] != ['-', '-']: raise Bad('kind', 'the comment does not begin with --')
    mid = got[2:-1] if kind == 'one' else got[4 + lv:-(2 + lv)]
    if kind == 'one' and opens(st, mid): raise Bad('kind', 'a one-line comment becomes a long comment')
    if kind == 'long' and (got[:4 + lv] != ['-', '-', '['] + eq + ['['] or got[-(2 + lv):] != [']'] + eq + [']']): raise Bad('kind', 'the brackets of a long comment change')
    if kind == 'long' and mid[-(lv + 1):] == [']'] + eq: raise Bad('kind', 'a long comment ends earlier than its text')
    raise Bad('text', 'the text of the comment changes')

def results(ctx):
    deep = ctx.deep
    return ctx.cached('comments%d' % deep, lambda: {'nodes': node_results(ctx.prog, 3 if deep else 2), 'one': leaf_results(ctx.prog, 'one', deep), 'long': leaf_results(ctx.prog, 'long', deep)})
def report(ctx, rep):
    r = results(ctx)
    for x in r['nodes']:
        for m in sorted(x['bad']): rep.bad('comment node %s | %s | %s' % (x.get('node'), ' '.join(x['leaves']), m), 'comment writer arm for %s (%s): %s' % (x.get('node'), x['prod'], m))
        for u in sorted(x['unclear']): rep.unclear('%s: %s' % (x['prod'], u))
    for k, nm in (('one', 'OneLineComment'), ('long', 'MultiLineComment')):
        for m, w in sorted(r[k]['bad'].items()): rep.bad('comment %s | %s' % (nm, m), 'comment writer arm for %s: %s (text: %s)' % (nm, m, w))
        for u in sorted(r[k]['unclear']): rep.unclear('%s: %s' % (nm, u))
    return r
