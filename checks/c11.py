"""The MIR of the configuration loader is interpreted on every shape of a configuration file: each kind of top-level statement, each kind of assigned value,
several statements in a row, with and without a #! line and a final return, and with reading and parsing failing. The calls of the option setter on every path are
compared with the assignments of the file."""
from progcfg import *
NODE = 'luafmt::parser::lua_ast::Node'
LOADER = 'luafmt::config::Config::reload_format_from_file'
PARSE = 'luafmt::parser::parse_lua'
def loc(P): return ('A', 'luafmt::parser::common::Loc', 0, (('x', 'p'), ('x', 'q')))
def node(P, variant, *kids, texts=()):
    """a node of the variant with the given children; other fields unknown"""
    a = P.byPath[NODE]; kids = list(kids); texts = list(texts)
    for i, v in enumerate(a['v']):
        if v['n'] != variant: continue
        fs = []
        for k, (n, ty) in enumerate(v['f']):
            if ty.endswith('lua_ast::Node>') and ty.startswith('alloc::boxed::Box<'): fs.append(kids.pop(0) if kids else ('x', 'kid%d' % k))
            elif 'Vec<(' in ty: fs.append(('V', kids.pop(0) if kids and isinstance(kids[0], tuple) and (not kids[0] or isinstance(kids[0][0], tuple)) else ()))
            elif ty.startswith('['): fs.append(('V', tuple(loc(P) for _ in range(int(ty.rstrip(']').rsplit(' ', 1)[1])))))
            elif ty.endswith('Loc'): fs.append(loc(P))
            elif ty == 'alloc::string::String' and texts: fs.append(texts.pop(0))
            else: fs.append(('x', 'f%d_%s' % (k, variant)))
        return ('A', NODE, i, tuple(fs))
    return None
def items(P, ns, four): return tuple(('T', (loc(P), n, loc(P), ',') if four else (loc(P), n)) for n in ns)
def check(ctx, rep):
    P = ctx.prog
    variants = [v['n'] for v in P.byPath[NODE]['v']]
    NAME = ('x', 'name'); TXT = ('x', 'text')
    def S(x): return ('S', (('t', x),))
    def assign(name, val):
        return node(P, 'VarsExprs', node(P, 'VarList', items(P, [name], True)), node(P, 'ExpList', items(P, [val], True)))
    def nm(k=''): return node(P, 'Name', texts=[S(('x', 'name' + k))])
    def value(v, k=''): return node(P, v, texts=[S(('x', 'text' + k))])
    def lst(*ns): return node(P, 'StatementList', items(P, ns, False))
    def chunk(b): return node(P, 'Chunk', b)
    def num(k): return assign(nm(k), value('Numeral', k))
    def exp(k): return ('set', ('x', 'name' + k), ('x', 'text' + k))
    T = ('x', 'text'); N = ('x', 'name')
    cases = []
    for v, e in (('Numeral', T), ('NormalStringLiteral', ('lua', T)), ('CharStringLiteral', ('lua', T)), ('MultiLineStringLiteral', ('long', T)), ('True', 'true'), ('False', 'false')):
        cases.append(('name = ' + v, chunk(lst(assign(nm(), value(v)))), [('set', N, e)]))
    for v in variants:
        if v not in ('Numeral', 'NormalStringLiteral', 'CharStringLiteral', 'MultiLineStringLiteral', 'True', 'False'):
            cases.append(('name = ' + v, chunk(lst(assign(nm(), value(v)))), []))
        if v != 'Name': cases.append((v + ' = Numeral', chunk(lst(assign(value(v), value('Numeral')))), []))
        if v not in ('StatementList', 'VarsExprs', 'StatsRetStat', 'Chunk', 'SheBangChunk'): cases.append(('statement ' + v, chunk(lst(value(v))), []))
    two = [exp('1'), exp('2')]
    cases += [('no statements', chunk(lst()), []),
              ('two assignments', chunk(lst(num('1'), num('2'))), two),
              ('three assignments', chunk(lst(num('1'), num('2'), num('3'))), two + [exp('3')]),
              ('a nested list', chunk(lst(lst(num('1')), num('2'))), two),
              ('#! line', node(P, 'SheBangChunk', node(P, 'SheBang', texts=[S(('x', 'bang'))]), lst(num('1'), num('2'))), two),
              ('return at the end', chunk(node(P, 'StatsRetStat', lst(num('1'), num('2')), node(P, 'RetStatNone'))), two),
              ('only a return', chunk(node(P, 'RetStatNone')), [])]
    paths = 0; fns = set(); sites = 0
    PATH = ('x', 'path')
    for what, tree, want in cases:
        if tree is None: continue
        def h_parse(I, st, c, a, ln):
            src = base(D(I, st, a[0])); emit(st, 'parse', src)
            return [(s, r) for s, r in w.split(I, st, ('parse',), ok(tree), err(('x', 'parse error')))]
        def h_set(I, st, c, a, ln):
            n, v = base(D(I, st, a[1])), base(D(I, st, a[2]))
            emit(st, 'set', n, v)
            upd(I, st, a[0], ('x', 'after', D(I, st, a[0]), n, v))
            return one(st, UNIT)
        w = World(P, {PARSE: h_parse, SETTER: h_set})
        C0 = cfgval(P)
        st = St(); st.heap['cfg'] = C0
        try: outs = w.run(LOADER, [('&', ('H', 'cfg'), ()), PATH], st)
        except Undecided as e: rep.unclear('%s: %s' % (what, e)); continue
        fns |= w.I.visited; sites += w.I.callsites
        for s, r in outs:
            paths += 1
            r = D(w.I, s, r)
            read = s.heap.get(('world', ('ok', 'file_text', PATH))); prs = s.heap.get(('world', ('parse',)))
            good = isinstance(r, tuple) and r[:3] == ('A', RES, 0); bad = isinstance(r, tuple) and r[:3] == ('A', RES, 1)
            if not (good or bad): rep.unclear('%s: result %r' % (what, r)); continue
            if read is None: rep.unclear('%s: the file is not read' % what); continue
            if not read or prs is False:
                if good: rep.bad('error dropped', 'a configuration file that cannot be %s gives a configuration' % ('read' if not read else 'parsed'))
                continue
            if prs is None: rep.bad('not parsed', 'the text of the configuration file is not parsed'); continue
            if bad: rep.bad('%s | error' % what, 'a configuration file with %s is an error' % what); continue
            src = [e[1] for e in fx(s) if e[0] == 'parse']
            if src != [('call', 'file_text', PATH)]: rep.unclear('%s: parsed text %r' % (what, src)); continue
            got = [e for e in fx(s) if e[0] == 'set']
            m = compare(w, s, got, want)
            if m is None: rep.unclear('%s: %r' % (what, got)); continue
            for k in m: rep.bad('%s | %s' % (what, k), 'a configuration file with `%s`: %s' % (what, k))
            if m: continue
            c = C0
            for g in got: c = ('x', 'after', c, g[1], g[2])
            if D(w.I, s, r[3][0]) != c:
                rep.bad('%s | result' % what, 'a configuration file with `%s`: the configuration returned is not the current one with the assignments applied' % what)
    rep.cov.update({'file_shapes': len(cases), 'paths': paths, 'functions_analysed': len(fns), 'call_sites_interpreted': sites,
                    'rule': 'the setter is called once for every assignment, in order, with its name and value, on a copy of the current configuration; failures give an error',
                    'samples': [c[0] for c in cases[:6]]})
    rep.assumptions += TRUST
def compare(w, s, got, want):
    if len(got) != len(want):
        return ['%d option(s) set instead of %d' % (len(got), len(want))]
    out = []
    for g, x in zip(got, want):
        if g[1] != x[1]: return ['option name taken from %r' % (g[1],)]
        v = x[2]
        if isinstance(v, tuple) and v[0] == 'lua':
            if g[2] == v[1]: out.append('escape sequences of the string are kept as written')
            elif not any(v[1] == t for t in models.walk(g[2])): out.append('value %r' % (g[2],))
            continue
        if isinstance(v, tuple) and v[0] == 'long':
            t = v[1]
            lead = None
            for f, d in s.facts.items():
                if t in list(models.walk(f)) and d[0] == 'in' and len(d[1]) == 1: lead = next(iter(d[1]))
            lo = None
            if g[2] == t: lo = 0
            elif isinstance(g[2], tuple) and g[2][0] == 'S' and len(g[2][1]) == 1 and g[2][1][0][0] == 'slice' and base(g[2][1][0][1]) == t: lo = g[2][1][0][2]
            if lo == 0 and lead is None: out.append('a line break after the opening brackets is kept')
            elif lo == 0 and lead is True: out.append('a line break after the opening brackets is kept')
            elif lo == 1 and lead is not True: out.append('the first character is dropped')
            elif isinstance(lo, int) and lo > 1: out.append('the first %d characters are dropped' % lo)
            elif lo is None and not any(t == q for q in models.walk(g[2])): out.append('value %r' % (g[2],))
            continue
        if g[2] != v: out.append('value %r' % (g[2],))
    return out
