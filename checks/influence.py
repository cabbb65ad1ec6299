"""The layout a construct is written with: which options decide it (C25), the line breaks an option asks for (C26), and the text with no option set (C27)."""
import re, multiprocessing as mp
import ai
from ai import *
from grammar import Grammar
import writer, models, constructs, mergeflow

class LWriter(mergeflow.SWriter):
    """keeps the layout: every blank, line break and indentation is a piece of its own; a gap carries the hint it is written with"""
    exact = False
    def __init__(self, prog, key):
        super().__init__(prog, key)
        self.I.exact = self.exact
    def h_gap(self, I, st, c, a, ln):
        v = I.deref(st, a[0])
        loc = [I.deref(st, x) for x, (n, t) in zip(v[3], self.fs) if 'Loc' in t]
        if len(loc) != 1 or loc[0][0] != 'A': return NotImplemented
        for x, (n, t) in zip(v[3], self.fs):
            if 'Loc' not in t: self.hints.update(terms_of(I.deref(st, x)))
        return super().h_gap(I, st, c, a, ln)
    hints = set()
    levels = False
    def h_node(self, I, st, c, a, ln):
        out = super().h_node(I, st, c, a, ln)
        if out is not NotImplemented and self.levels:
            b = writer.base(I.deref(st, a[0])); j = self.sidx.get('indent_level')
            lv = I.deref(st, a[4])
            for s, _ in out: s.heap[('lvl', b)] = lv[3][j]
        return out
    def norm(self, ps, keep_lead=True):
        out = []
        for p in ps:
            if isinstance(p, str):
                for w in re.split(r'(\s)', p):
                    if w: out.append(('WS', w) if w.isspace() else ('k', w))
            elif p[0] == 'S': out += self.norm(p[1])
            else: out.append(p)
        return tuple(out)

def good(res): return not (isinstance(res, tuple) and res and res[0] == 'A' and res[1] == RES and res[2] == 1)
def names_of(terms):
    return {x[1][2:] for t in terms for x in terms_of(t) if isinstance(x[1], str) and x[1].startswith('o:')}
def options(prog): return [n for n, t in prog.byPath['luafmt::config::FormatOpts']['v'][0]['f']]

# ---------------------------------------------------------------- C25: which options may decide the layout of which construct
INDENT = ['indent_exp_list', 'indent_one_line_exp_list', 'indent_var_suffix', 'indent_one_line_var_suffix', 'newline_format_exp_list_first']
LISTS = r'ArgsRoundBrackets|LocalNamesExprs|RetStat.*|Var|Var.*Suffix|VarsExprs|ForRange.*|TableConstructor|ExpList|VarSuffixList|FuncCall'
RULES = [
    (r'newline_format_statement', r'StatementList|StatsRetStat|Chunk|SheBangChunk|.*Block.*'),
    (r'newline_format_function|force_single_line_(top_level|scoped)_function', r'.*Func.*'),
    (r'newline_format_if|force_single_line_if', r'If.*|ElseIf.*|Else.*'),
    (r'newline_format_while', r'While.*'), (r'newline_format_repeat_until', r'Repeat.*'), (r'newline_format_do_end', r'Do.*'), (r'newline_format_for', r'For.*'),
    (r'(newline_format|force_single_line)_binary_op', r'.*Binary.*|.*Unary.*'),
    (r'(newline_format|force_single_line)_var_suffix', r'Var.*'),
    (r'(newline_format|force_single_line)_exp_list', r'ExpList'),
    ('|'.join(INDENT), LISTS),
    (r'field_separator|write_trailing_field_separator|newline_format_table_field|force_single_line_(iv|kv)_table_field', r'Field.*|TableConstructor.*|TableIV|TableKV|Table.*'),
    (r'(newline_format_table_constructor|force_single_line_table|hint_table_constructor)', r'Field.*|Table.*'),
    (r'write_newline_at_.*multiline_table', r'ExpList|Table.*|Field.*'),
    (r'write_newline_at_eof', r'Chunk|SheBangChunk'),
    (r'max_width', r'.*Func.*|If.*|ElseIf.*|.*Binary.*|.*Unary.*|Var.*|ExpList|Field.*|Table.*'),
    (r'indentation_string', r'.*'),
    (r'hint_(before|after).*comment.*|remove_spaces_between_tokens|replace_zero_spaces_with_hint|remove_(single|all)_newlines?|replace_.*|remove_.*|title_.*', r'VarSuffixList'),
]
QUOTES = r'.*(charstring|char_string|quote|escape).*'
def allowed(o, node): return any(re.fullmatch(a, o) and re.fullmatch(b, node) for a, b in RULES)

def reads(prog, G, key, p, d, r):
    leaves, v, l, rr = G.build(Interp(prog), d)
    if not (isinstance(v, tuple) and v[0] == 'A'): r['skip'] = True; return
    r['node'] = prog.byPath[v[1]]['v'][v[2]]['n']
    def go(given, exact=False):
        W = LWriter(prog, key); W.I.exact = exact; W.setup(leaves); W.hints = set(); St.reads = set()
        outs = [(s, ps) for s, res, ps in W.write(v, {'pos_range': none()}, writer.cfg_value(prog, given)) if good(res)]
        got = names_of(St.reads) | names_of(W.hints) | {n for s, ps in outs for n in names_of([ps])}
        St.reads = None
        r['fns'] |= set(W.I.visited); r['sites'] += W.I.callsites; r['outs'] += len(outs)
        return got, {(frozenset(s.facts.items()), ps) for s, ps in outs}
    got, _ = go({})
    r['reads'] |= got
    ty = dict(prog.byPath['luafmt::config::FormatOpts']['v'][0]['f'])
    for o in sorted(got):
        if allowed(o, r['node']): continue
        # decided on: does it make a difference?
        vals = [none()] + ([some(True), some(False)] if 'bool' in ty.get(o, '') else [some(0), some(1), some(2), some(3)] if re.search(r'u8|usize|i32|u32|isize', ty.get(o, '')) else [some(''), some(('x', 'OTHER'))])
        outs = []
        for x in vals: outs.append(go({o: x}, True)[1])
        if any(x != outs[0] for x in outs): r['bad'].add('the layout of %s depends on %s, which is not one of its options' % (r['node'], o))

# ---------------------------------------------------------------- C26: the line breaks an option asks for
def level(k): return ('x', 's:indent_level') if k == 0 else ('lin', k, ((('x', 's:indent_level'), 1),))
IND = ('t', ('x', 'IND'))
BODY = [  # option, value, constructs, parts that stand on lines of their own, parts that begin a line of their own
    ('newline_format_function', 1, r'.*Func.*'), ('newline_format_if', 1, r'If.*|ElseIf.*|Else.*'), ('newline_format_while', 1, r'While.*'),
    ('newline_format_repeat_until', 1, r'Repeat.*'), ('newline_format_do_end', 1, r'Do.*'), ('newline_format_for', 1, r'For.*')]
def wanted(G, node, leaves):
    """[(option, value, [(leaf after the break, level)], [(leaf, level it is written at)])]"""
    out = []
    syms = [x[0] for x in leaves]; n = len(leaves)
    body = [i for i, s in enumerate(syms) if s == 'Block']
    arms = [i for i, s in enumerate(syms) if not G.is_term(s) and s.startswith('ElseIf')]
    for o, val, kinds in BODY:
        if not re.fullmatch(kinds, node): continue
        br = {}; at = {}
        for i in body:
            br[i] = 1; at[i] = 1
            if i + 1 < n: br[i + 1] = 0
        for i in arms:
            at[i] = 0
            if i: br[i] = 0
            if i + 1 < n: br.setdefault(i + 1, 0)
        if br: out.append((o, val, sorted(br.items()), sorted(at.items())))
    if re.fullmatch('StatementList|StatsRetStat', node):
        kids = [i for i, s in enumerate(syms) if not G.is_term(s)]
        if len(kids) > 1: out.append(('newline_format_statement', 1, [(i, 0) for i in kids[1:]], [(i, 0) for i in kids]))
    if node == 'Fields':
        fs = [i for i, s in enumerate(syms) if not G.is_term(s) and s.startswith('Field') and s != 'FieldSep']
        out.append(('newline_format_table_field', 1, [(i, 0) for i in fs], [(i, 0) for i in fs]))
    if node == 'TableConstructor' and n == 3: out.append(('newline_format_table_constructor', 1, [(2, 0)], [(1, 1)]))
    if node == 'ExpList' and n > 1:
        it = [i for i, s in enumerate(syms) if not G.is_term(s)]
        out.append(('newline_format_exp_list', 1, [(i, 0) for i in it[1:]], [(i, 0) for i in it]))
    if syms[-1:] == ['EOF']: out.append(('write_newline_at_eof', True, [(n - 1, 0)], []))
    if node == 'BinaryOp' and n == 3:
        out.append(('newline_format_binary_op', 1, [(1, 1)], [])); out.append(('newline_format_binary_op', 2, [(2, 1)], []))
    return out
def breaks(prog, G, key, p, d, r):
    leaves, v, l, rr = G.build(Interp(prog), d)
    if not (isinstance(v, tuple) and v[0] == 'A'): r['skip'] = True; return
    r['node'] = prog.byPath[v[1]]['v'][v[2]]['n']
    have = options(prog)
    for o, val, br, at in wanted(G, r['node'], leaves):
        if o not in have: r['unclear'].add('no option ' + o); continue
        cfg = writer.cfg_value(prog, dict({x: none() for x in have if x.startswith('force_single_line') or x in ('max_width', 'field_separator', 'write_trailing_field_separator')}, **{o: some(val), 'indentation_string': some(('x', 'IND'))}))
        W = LWriter(prog, key); W.levels = True; W.setup(leaves)
        n = 0
        for s, res, ps in W.write(v, {'pos_range': none(), 'stack_indent': ('V', ())}, cfg):
            if not good(res): continue
            n += 1
            ps = list(ps)
            pos = place(G, leaves, ps)
            if pos is None: r['unclear'].add('the parts of %s are not recognised' % r['node']); continue
            for i, lv in br:
                r['obl'] += 1
                between = ps[pos[i - 1][1]:pos[i][0]] if i else ps[1:pos[i][0]]
                if leaves[i][0] == 'EOF' and i and leaves[i - 1][0] == 'EOF': continue
                what = '%s = %s: %s of %s' % (o, val, name(leaves[i]), r['node'])
                k = max([j for j, q in enumerate(between) if q == ('WS', '\n')], default=None)
                if k is None: r['bad'].add(what + ' does not begin on a line of its own'); continue
                rest = [q for q in between[k + 1:] if q != ('ws',)]
                if rest != [('rep', (IND,), level(lv))]: r['bad'].add(what + ' is not indented by %s' % ('the level of the construct' if lv == 0 else 'one level more than the construct'))
            for i, lv in at:
                r['obl'] += 1
                got = s.heap.get(('lvl', leaves[i][3]))
                if got is not None and got != level(lv): r['bad'].add('%s = %s: %s of %s is laid out at the wrong level' % (o, val, name(leaves[i]), r['node']))
                if got is None: r['unclear'].add('level of %s' % name(leaves[i]))
        r['outs'] += n
        if not n: r['unclear'].add('no outcome with %s = %s' % (o, val))
        r['fns'] |= set(W.I.visited); r['sites'] += W.I.callsites
def name(leaf): return 'the end' if leaf[0] == 'EOF' else leaf[0].strip('"') if leaf[0].startswith('"') else 'a part (%s)' % leaf[0]
def place(G, leaves, ps):
    """where each leaf is written: [(first piece, piece after the last)]"""
    out = []; j = 0
    for x in leaves:
        if x[0] == 'EOF': out.append((len(ps), len(ps))); continue
        want = [q for q in constructs.spelling(G, x[0], x[3]) if q != ('ws',)]
        if not G.is_term(x[0]): want = [('sub', x[3])]
        st = j
        while st < len(ps) and ps[st] != want[0]:
            if ps[st][0] in ('k', 't', 'sub'): return None
            st += 1
        if st >= len(ps): return None
        out.append((st, st + len(want))); j = st + len(want)
    return out

# ---------------------------------------------------------------- C27: no option set
WHITE = {'\n': 'a line break is', ' ': 'a blank is', '\t': 'a tab is'}
def flat(ps):
    out = []
    for p in ps:
        if isinstance(p, str): p = ('k', p)
        if p[0] == 'k': out += [('k', c) for c in p[1]]
        elif p[0] == 'rep' and len(p) == 3 and p[1] == ('=',): out.append(('rep', p[1], p[2]))
        elif p[0] == 'gap0': out.append(('gap',) + tuple(p[1:3]))
        else: out.append(tuple(p))
    return out
def plain(prog, G, key, p, d, r):
    leaves, v, l, rr = G.build(Interp(prog), d)
    if not (isinstance(v, tuple) and v[0] == 'A'): r['skip'] = True; return
    r['node'] = prog.byPath[v[1]]['v'][v[2]]['n']
    W = LWriter(prog, key); W.setup(leaves)
    if p.nt == G.start: W.gaps.add((0, leaves[0][1]))
    n = 0
    gap = lambda s, a, b: [] if a == b or constructs.known_empty(W.I, s, a, b) else [('gap', a, b)]
    for s, res, ps in W.write(v, {'pos_range': none()}, writer.cfg_value(prog, {o: none() for o in options(prog)})):
        if not good(res): continue
        n += 1
        want = []; end = 0
        for i, x in enumerate(leaves):
            if i or p.nt == G.start: want += gap(s, end, x[1])
            want += flat([q for q in constructs.spelling(G, x[0], x[3]) if q != ('ws',)])
            end = x[2]
        got = []
        ps = list(ps)
        if ps[:1] == [('pre',)]: ps = ps[1:]
        elif ps: r['bad'].add('the text written before %s is changed' % r['node'])
        for q in flat(ps): got += gap(s, q[1], q[2]) if q[0] == 'gap' else [q]
        if r['node'] == 'TableConstructorEmpty' and ('WS', '\n') in got and got[-1:] == [('k', '}')]:         # braces on different lines: the closing one gets a line of its own
            lay = lambda x: [q for q in x if q[0] not in ('WS', 'trim', 'gap', 'rep')]
            got = lay(got); want = lay(want)
        j = 0
        for q in got:
            if j < len(want) and q == want[j]: j += 1; continue
            if q == ('WS', '\n') and j and j <= len(want) and any(x[0] == 'SheBang' and x[3] == want[j - 1][-1] for x in leaves): continue      # the line break that ends a #! line
            if q[0] == 'WS': m = '%s written' % WHITE.get(q[1], 'white space is')
            elif q[0] == 'trim' or q[0].startswith('popped'): m = 'white space is removed'
            elif q[0] in ('rep', 'ws'): m = 'indentation is written'
            elif q[0] == 'k': m = '%r is written' % q[1]
            elif q[0] in ('gap', 'sub', 't', 'raw'): m = 'something is left out, or the source is written out of order'
            else: r['unclear'].add('piece %r' % (q,)); break
            r['bad'].add('with no option set %s in %s where the source has nothing such' % (m, r['node'])); break
        else:
            if j < len(want): r['bad'].add('with no option set the end of %s is left out' % r['node'])
    r['outs'] += n
    if not n: r['unclear'].add('no outcome without options')
    r['fns'] |= set(W.I.visited); r['sites'] += W.I.callsites

def plain_prep(prog, G, key, p, d, r):
    """the preparation pass leaves the node alone"""
    leaves, v, l, rr = G.build(Interp(prog), d)
    if not (isinstance(v, tuple) and v[0] == 'A'): r['skip'] = True; return
    r['node'] = prog.byPath[v[1]]['v'][v[2]]['n']
    W = LWriter(prog, key); W.setup(leaves)
    W.cfg = lambda: writer.cfg_value(prog, {o: none() for o in options(prog)})
    for s, n in W.prepare(v):
        r['outs'] += 1
        if constructs.shape(n) != constructs.shape(v): r['bad'].add('with no option set %s is rewritten before it is written' % r['node'])
    r['fns'] |= set(W.I.visited); r['sites'] += W.I.callsites

def gaps(ctx, given, track=False):
    """the stretch between two tokens, what is in it symbolic: [(label, written after the text before, facts)] and the options decided on"""
    P = ctx.prog
    r = {'outs': [], 'unclear': set(), 'fns': set(), 'sites': 0, 'reads': set(), 'cases': 0}
    ks = mergeflow.hint_key(P)
    if len(ks) != 1: r['unclear'].add('%d functions render the stretch between tokens' % len(ks)); return r
    key = ks[0]; path = P.adt_path(P.raw[key]['locals'][1].lstrip('&')); fs = P.byPath[path]['v'][0]['f']
    ckey = writer.comment_writer_key(P)
    more = ('t', ('x', 'more'))
    KINDS = {'nothing': '', 'blanks': ('S', (' ', more)), 'a line break': ('S', ('\n', more)), 'a short comment': ('S', ('--', more, '\n')), 'a long comment': ('S', ('--[[', more, ']]'))}
    for hint in ('', ' ', ('S', (('t', ('x', 'HINT')),))):
        for kind, text in KINDS.items():
            for wide in ((0, 1) if kind == 'nothing' and track else (0,) if kind == 'nothing' else (1,)):
                r['cases'] += 1
                I = Interp(P, {})
                I.nomerge = True
                def h_comment(I, st, c, a, ln):
                    models.append(I, st, a[1], text); return [(st, OKU)]
                I.hooks[ckey] = h_comment
                I.hooks['luafmt::parser::parse_comment'] = lambda I, st, c, a, ln: [(st, ok(('cnode', I.deref(st, a[0]))))]
                src = [('c', ('x', 'a')), ('c', ('x', 'm')), ('c', ('x', 'b'))] if wide else [('c', ('x', 'a')), ('c', ('x', 'b'))]
                T = ('S', tuple(src))
                def h_slice(I, st, v, lo, hi, ln):
                    if v != T: return None
                    pos = lambda x: 0 if x == 0 else x[1] if isinstance(x, tuple) and x[0] == 'bp' else None
                    a, b = pos(lo), len(src) if hi is None else pos(hi)
                    if isinstance(a, int) and isinstance(b, int) and 0 <= a <= b <= len(src): return [(st, ('S', tuple(src[a:b])) if a < b else '')]
                    raise Undecided('slice %r %r' % (lo, hi))
                I.hooks['model:slice'] = h_slice
                st = St()
                pre = (('t', ('x', 'BEFORE')), ('c', ('x', 'a')))
                if not track and 'comment' in kind: st.facts[('x', 'a')] = ('!', frozenset([('ch', 45)]))          # --- would be a comment already
                st.heap['f'] = ('S', pre); st.heap['state'] = writer.state_value(P, {'pos_range': none()}); st.heap['loc'] = ('A', writer.LOC, 0, (1, 1 + wide))
                flds = tuple(('&', ('H', 'loc'), ()) if 'Loc' in ty else hint for nm, ty in fs)
                st.heap['self'] = ('A', path, 0, flds)
                St.reads = set() if track else None
                try: outs = I.run(st, key, [('&', ('H', 'self'), ()), ('&', ('H', 'f'), ()), writer.cfg_value(P, given), T, ('&', ('H', 'state'), ())])
                except Undecided as e: r['unclear'].add('rendering between tokens: %s' % (e,)); continue
                finally:
                    if track: r['reads'] |= names_of(St.reads)
                    St.reads = None
                r['fns'] |= set(I.visited); r['sites'] += I.callsites
                for s, res in outs:
                    if not good(res): continue
                    got = tuple(models.pieces(s.heap['f'])) if not isinstance(s.heap['f'], str) else (s.heap['f'],)
                    if track: r['reads'] |= names_of([got])
                    r['outs'].append((kind, wide, hint, got, pre + tuple(models.pieces(text)) if text else pre))
    return r
def gap_plain(ctx):
    r = gaps(ctx, {o: none() for o in options(ctx.prog)})
    r['bad'] = set()
    for kind, wide, hint, got, want in r['outs']:
        if chars(got) != chars(want): r['bad'].add('with no option set a stretch between tokens that holds %s is not written as it is' % kind)
    return r
def chars(ps):
    out = []
    for p in ps: out += list(p) if isinstance(p, str) else [p]
    return out

def comments_plain(ctx):
    """the productions of the comment tree, without options"""
    import comments
    P = ctx.prog; G = Grammar(P, 'comment_syntax')
    r = {'bad': set(), 'unclear': set(), 'outs': 0, 'fns': set(), 'sites': 0, 'prods': 0}
    cfg = writer.cfg_value(P, {o: none() for o in options(P)})
    kinds = {}
    for p in G.live:
        if not G.is_node(p.nt): continue
        for d in G.derivations(p, 1):
            l, v, _, _ = G.build(Interp(P), d)
            if v[0] == 'A': kinds.setdefault(p.nt, set()).add(v[2])
    for p in G.live:
        if not G.is_node(p.nt): continue
        for d in G.derivations(p, 2):
            leaves, v, l, rr = G.build(Interp(P), d)
            if not (isinstance(v, tuple) and v[0] == 'A'): continue
            if any(x[0] in ('OneLineComment', 'MultiLineComment') for x in leaves): continue                # their text: the cases of comments.leaf_results
            node = P.byPath[v[1]]['v'][v[2]]['n']
            r['prods'] += 1
            try:
                W = comments.CWriter(P); W.setup(leaves)
                outs = W.write(v, {'comment_offset': ('x', 'OFF'), 'comment_pos_range': none()}, cfg=cfg, facts={('d', x[3]): ('in', frozenset(kinds[x[0]])) for x in leaves if x[0] in kinds})
            except Undecided as e: r['unclear'].add('%s: %s' % (node, e)); continue
            r['fns'] |= set(W.I.visited); r['sites'] += W.I.callsites
            for s, res, ps in outs:
                if not good(res): continue
                r['outs'] += 1
                ps = list(ps)
                if ps[:1] != [('pre',)]: r['bad'].add('with no option set the text before %s is changed' % node); continue
                got = [q for q in flat(ps[1:]) if not (q[0] == 'raw' and q[1] == q[2])]
                want = []; end = 0
                for i, x in enumerate(leaves):
                    if x[0] == 'EOF':
                        if not i or end != x[1]: want.append(('raw?', end, x[1]))
                        continue
                    want.append(('raw?', end, x[1])); end = x[2]
                    if G.is_term(x[0]): want += [('k', '\n')] if x[0] in ('NewLine', '"\\n"') else [('t', x[3])]
                    else: want.append(('sub', x[3]))
                if not same(got, want): r['bad'].add('with no option set the parts of a %s (%s) are not written as they are' % (node, ' '.join(x[0] for x in leaves)))
    for k, nm in (('one', 'OneLineComment'), ('long', 'MultiLineComment')):
        x = comments.leaf_results(P, k, ctx.deep, True)
        for m, w in sorted(x['bad'].items()): r['bad'].add('with no option set, %s: %s (text: %s)' % (nm, m, w))
        r['unclear'] |= x['unclear']; r['fns'] |= x['fns']; r['sites'] += x['sites']; r['outs'] += x['outs']; r['prods'] += 1
        if not x['cases']: r['unclear'].add('no text of a %s examined' % nm)
    return r
def same(got, want):
    j = 0
    for q in want:
        if q[0] == 'raw?':
            if j < len(got) and got[j][0] == 'raw' and got[j][1:] == q[1:]: j += 1
            continue
        if j < len(got) and got[j] == q: j += 1
        else: return False
    return j == len(got)

GAP = r'hint_.*comment.*|remove_.*|replace_.*'
COMMENT = r'(newline_format|hint)_.*comment.*|remove_.*|replace_.*|indentation_string'
def comment_reads(ctx):
    """{'OneLineComment' ..: options decided on}"""
    import comments
    out = {}
    try:
        St.reads = set(); r = comments.node_results(ctx.prog, 2); out['the comment tree'] = (names_of(St.reads), set().union(*[x['unclear'] for x in r]), sum(x['outs'] for x in r))
        for k, nm in (('one', 'OneLineComment'), ('long', 'MultiLineComment')):
            St.reads = set(); r = comments.leaf_results(ctx.prog, k, False); out[nm] = (names_of(St.reads), r['unclear'], r['outs'])
    finally: St.reads = None
    return out
def prep_reads(prog, G, key, p, d, r):
    leaves, v, l, rr = G.build(Interp(prog), d)
    if not (isinstance(v, tuple) and v[0] == 'A'): r['skip'] = True; return
    r['node'] = prog.byPath[v[1]]['v'][v[2]]['n']
    W = LWriter(prog, key); W.setup(leaves); St.reads = set()
    r['outs'] += len(W.prepare(v))
    got = names_of(St.reads); St.reads = None
    r['reads'] |= got
    for o in sorted(got):
        if not (re.fullmatch('convert_.*string.*', o) and 'String' in r['node']): r['bad'].add('whether %s is rewritten before it is written depends on %s, which is not one of its options' % (r['node'], o))
    r['fns'] |= set(W.I.visited); r['sites'] += W.I.callsites

# ---------------------------------------------------------------- pool
JOBS = {'reads': reads, 'plain': plain, 'prep': plain_prep, 'breaks': breaks, 'prepreads': prep_reads}
_c = {}
def _init(outdir, cap):
    prog = Prog(outdir); G = Grammar(prog)
    _c.update(p=prog, g=G, cap=cap, key=mergeflow.hint_key(prog), d={})
def _work(j):
    try: return _work1(j)
    finally: ai.flushlog()
def _work1(a):
    kind, i, j = a; G = _c['g']; p = G.live[i]
    if i not in _c['d']: _c['d'][i] = G.derivations(p, _c['cap'])
    r = {'kind': kind, 'prod': repr(p), 'nt': p.nt, 'leaves': G.leaves(_c['d'][i][j]), 'bad': set(), 'unclear': set(), 'outs': 0, 'fns': set(), 'sites': 0, 'reads': set(), 'obl': 0}
    try: JOBS[kind](_c['p'], G, _c['key'][0], p, _c['d'][i][j], r)
    except Undecided as e: r['unclear'].add(str(e)[:200])
    except Exception as e: r['unclear'].add('%s: %s' % (type(e).__name__, e))
    finally: St.reads = None
    return r
def run_all(outdir, cap, kinds):
    _init(outdir, cap)
    if len(_c['key']) != 1: return []
    G = _c['g']
    js = [(k, i, j) for k in kinds for i, p in enumerate(G.live) if G.is_node(p.nt) for j in range(len(G.derivations(p, cap)))]
    js.sort(key=lambda a: -len(G.leaves(G.derivations(G.live[a[1]], cap)[a[2]])))
    with mp.get_context('fork').Pool(8) as pool: return pool.map(_work, js, chunksize=1)
def results(ctx, *kinds):
    return ctx.cached('layout-%s%d' % ('-'.join(kinds), ctx.deep), lambda: [r for r in run_all(ctx.outdir, 3 if ctx.deep else 2, kinds) if not r.get('skip')])

# ---------------------------------------------------------------- reporting
def cover(rep, rs, rule):
    rep.cov.update({'productions': len(rs), 'node_kinds': len({r.get('node') for r in rs}), 'path_outcomes': sum(r['outs'] for r in rs), 'functions_analysed': len(set().union(*[r['fns'] for r in rs])),
                    'call_sites_interpreted': sum(r['sites'] for r in rs), 'rule': rule, 'samples': ['%s: %s' % (r.get('node'), r['prod']) for r in rs[:5]]})
    import base
    rep.assumptions += base.TRUST
def report(rep, rs):
    if not rs: rep.unclear('no construct examined: the function that renders the stretch between tokens is not found')
    for r in rs:
        for m in sorted(r['bad']): rep.bad('%s | %s' % (r.get('node'), m), 'writer arm for %s (%s): %s' % (r.get('node'), r['prod'], m))
        for u in sorted(r['unclear']): rep.unclear('%s: %s' % (r['prod'], u))
