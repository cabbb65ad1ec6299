"""Quote conversion as a transducer: the preparation pass is interpreted on a single-quoted string whose text is made of characters of each class the conversion
can tell apart (quote, backslash, apostrophe, line break, letter, digit, any other), in every order a well-formed string allows; the text that comes out must be a
well-formed double-quoted string for the same characters."""
import itertools
from ai import *
import models, writer
OPTION = 'convert_charstring_to_normalstring'
SPECIAL = ['"', '\\', "'", '\n', 'n', 'x', 'z', '0', ' ', ']']
def node_of(prog, G, term):
    for p in G.live:
        for d in G.derivations(p, 1):
            leaves, v, _, _ = G.build(Interp(prog), d)
            if [l[0] for l in leaves] == [term] and isinstance(v, tuple) and v[0] == 'A': return p, leaves, v
    return None
def put(v, old, new):
    if v == old: return new
    if isinstance(v, tuple): return tuple(put(x, old, new) for x in v)
    return v
def texts(n):
    """well-formed contents of a single-quoted string: each item is (characters, what they stand for)"""
    plain = [('"', 'p"'), ('o', 'po'), ('n', 'pn'), ('0', 'p0'), (' ', 'p '), (']', 'p]')]
    esc = [('\\' + c, 'e' + c) for c in ('"', '\\', "'", '\n', 'n', '0', 'z')]
    for k in range(n + 1):
        for t in itertools.product(plain + esc, repeat=k):
            # keep the products small: at most two items that are not quotes or backslashes
            if sum(1 for x in t if x[1] not in ('p"', 'e"', 'e\\', "e'")) <= (2 if k < 4 else 1): yield t
def pieces_of(t, facts):
    ps = []; i = 0
    for ch, m in t:
        if m == 'po':
            c = ('x', 'o%d' % i); i += 1
            facts[c] = ('!', frozenset(('ch', ord(x)) for x in SPECIAL)); ps.append(('c', c))
        elif ps and isinstance(ps[-1], str): ps[-1] += ch
        else: ps.append(ch)
    return ('S', tuple(ps)) if len(ps) != 1 or not isinstance(ps[0], str) else ps[0] if ps else ''
def chars(v):
    out = []
    for p in models.pieces(v) if not isinstance(v, str) else [v]:
        if isinstance(p, str): out += list(p)
        elif p[0] == 'c': out.append(chr(p[1][1]) if p[1][0] == 'ch' else p[1])
        else: raise Undecided('piece %r' % (p,))
    return out
def norm(cs, quote):
    """what a short string's characters denote: escapes of quotes are the quotes"""
    out = []; i = 0
    while i < len(cs):
        c = cs[i]
        if c == quote: return None
        if c == '\\':
            if i + 1 >= len(cs): return None
            d = cs[i + 1]; i += 2
            out.append(d if d in ('"', "'") else ('esc', d)); continue
        if c == '\n': return None
        out.append(c); i += 1
    return out
def show(t): return "'" + ''.join(ch if m != 'po' else 'a' for ch, m in t) + "'"
def run(ctx):
    P, G = ctx.prog, ctx.grammar
    r = {'bad': {}, 'unclear': set(), 'cases': 0, 'outs': 0, 'fns': set(), 'sites': 0}
    key = writer.recon_key(P)
    names = [f[0] for f in P.byPath['luafmt::config::FormatOpts']['v'][0]['f']]
    if OPTION not in names: r['unclear'].add('there is no option ' + OPTION); return r
    def go(v, facts, opt):
        I = Interp(P, {'model:maps': True}); I.nomerge = True
        st = St(); st.heap['node'] = v
        st.facts.update(facts)
        st.heap['state'] = writer.state_value(P, {})
        cfg = writer.cfg_value(P, {OPTION: opt} if opt is not None else {})
        st.heap['cfg'] = cfg
        outs = I.run(st, key, [('&', ('H', 'node'), ()), ('&', ('H', 'cfg'), ()), ('&', ('H', 'state'), ())])
        r['fns'] |= set(I.visited); r['sites'] += I.callsites; r['outs'] += len(outs); r['cases'] += 1
        return [(s, s.heap['node']) for s, _ in outs]
    nd = {t: node_of(P, G, t) for t in ('CharStringLiteral', 'NormalStringLiteral', 'MultiLineStringLiteral', 'MultilineString')}
    if not nd['CharStringLiteral'] or not nd['NormalStringLiteral']: r['unclear'].add('no production for string literals'); return r
    p, leaves, v = nd['CharStringLiteral']; val = leaves[0][3]
    nvar = nd['NormalStringLiteral'][2][2]
    for t in texts(5 if ctx.deep else 4):
        facts = {}
        S = pieces_of(t, facts)
        try: outs = go(put(v, val, S), facts, some(True))
        except Undecided as e: r['unclear'].add('%s' % (e,)); continue
        want = norm(chars(S), "'")
        for s, n in outs:
            if n[0] != 'A' or n[2] == v[2]: r['bad'].setdefault('a single-quoted string is not converted although the option is true', show(t)); continue
            if n[2] != nvar: r['bad'].setdefault('a single-quoted string becomes a node of another kind', show(t)); continue
            got = n[3][-1] if len(n[3]) == 2 else None
            try: gs = chars(got)
            except Exception: r['unclear'].add('text %r' % (got,)); continue
            d = norm(gs, '"')
            if d is None: r['bad'].setdefault('the converted text is not a well-formed double-quoted string', show(t))
            elif d != want: r['bad'].setdefault('the converted string denotes other characters', show(t))
    # off, unset: unchanged; other strings: always unchanged
    T = 'a"b'
    for opt in (none(), some(False)):
        try:
            for s, n in go(put(v, val, T), {}, opt):
                if n != put(v, val, T): r['bad'].setdefault('a single-quoted string is changed although the option is not true', '')
        except Undecided as e: r['unclear'].add('%s' % (e,))
    for k, x in nd.items():
        if k == 'CharStringLiteral' or not x: continue
        try:
            for s, n in go(put(x[2], x[1][0][3], T) if k == 'NormalStringLiteral' else x[2], {}, None):
                if n != (put(x[2], x[1][0][3], T) if k == 'NormalStringLiteral' else x[2]): r['bad'].setdefault('preparation changes a %s' % k, '')
        except Undecided as e: r['unclear'].add('%s' % (e,))
    return r
def results(ctx): return ctx.cached('quote%d' % ctx.deep, lambda: run(ctx))
