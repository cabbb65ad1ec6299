"""The library entry points (process_file, process_buffer_with_config) interpreted with everything they call at a boundary: each result must come from the
formatter run on the text of that very file with the right configuration, and each failure must come back as an error."""
from progcfg import *
from mainflow import PF, PB
GC = 'luafmt::file_util::get_file_config'; RL = 'luafmt::config::Config::reload_format_from_file'; EF = 'luafmt::config::Config::has_empty_format'
PARSE = 'luafmt::parser::parse_lua'
def process_file(ctx):
    P = ctx.prog; bad = []; unclear = []; n = 0
    F = ('x', 'file'); CF = ('x', 'cfg')
    def h_gc(I, st, c, a, ln):
        f, pre = base(D(I, st, a[0])), base(D(I, st, a[1]))
        emit(st, 'search', f, pre)
        return w.split(I, st, ('search',), some(('x', 'conf')), none())
    def h_rl(I, st, c, a, ln):
        emit(st, 'load', base(D(I, st, a[0])), base(D(I, st, a[1])))
        return w.split(I, st, ('load',), ok(('x', 'newcfg')), err(('x', 'loaderr')))
    def h_ef(I, st, c, a, ln):
        emit(st, 'empty?', base(D(I, st, a[0])))
        return [(s, b) for s, b in w.choose(I, st, ('empty',), [True, False])]
    def h_pb(I, st, c, a, ln):
        emit(st, 'format', *[base(D(I, st, x)) for x in a])
        return w.split(I, st, ('format',), ok(('S', (('t', ('x', 'out')),))), err(('x', 'fmterr')))
    w = World(P, {GC: h_gc, RL: h_rl, EF: h_ef, PB: h_pb})
    V = ('x', 'verbose')
    try: outs = w.run(PF, [F, CF, V])
    except Undecided as e: return bad, ['process_file: %s' % e], 0, w
    for s, r in outs:
        n += 1
        r = D(w.I, s, r); ev = fx(s)
        isok = isinstance(r, tuple) and r[:3] == ('A', RES, 0); iserr = isinstance(r, tuple) and r[:3] == ('A', RES, 1)
        if not isok and not iserr:
            fm = s.heap.get(('world', ('format',)))
            unclear.append('process_file returns %r' % (r,)); continue
        g = lambda *k: s.heap.get(('world', k))
        isfile = None
        for t, d in s.facts.items():
            if t == ('b', 'is_file', F): isfile = s.known(t)
        read = g('ok', 'file_text', F); empty = g('empty'); found = g('search'); loaded = g('load'); fmt = g('format')
        fe = [e for e in ev if e[0] == 'format']
        if any(e[0] in ('write', 'fs', 'exit') for e in ev): bad.append(('C13', 'process_file writes or changes files'))
        if any(e[0] == 'read' and e[1] != F for e in ev): bad.append(('C13', 'process_file reads another file'))
        fail = None
        if isfile is False: fail = 'is not a file'
        elif read is False: fail = 'cannot be read'
        elif empty and found is False: fail = 'has no configuration file'
        elif empty and loaded is False: fail = 'has a configuration file that cannot be loaded'
        elif fmt is False: fail = 'cannot be formatted'
        if fail:
            if isok:
                bad.append(('C14', 'a file that %s gives a result instead of an error' % fail))
                if 'configuration' in fail: bad.append(('C16', 'a file that %s gives a result instead of an error' % fail))
            continue
        if iserr: bad.append(('C14', 'a file gives an error although nothing failed')); continue
        if len(fe) != 1 or base(r[3][0]) != ('x', 'out'): bad.append(('C14', 'the result is not the text the formatter returned')); continue
        if fe[0][1] != ('call', 'file_text', F): bad.append(('C13', 'the text formatted is not the text of the file'))
        if fe[0][3] is not V and fe[0][3] != V: pass
        if empty is None: bad.append(('C16', 'the configuration does not depend on whether options are given'))
        elif empty:
            if fe[0][2] != ('x', 'newcfg'): bad.append(('C16', 'with no options given a file is formatted without its configuration file'))
            if [e[1:] for e in ev if e[0] == 'search'] != [(F, '.luafmt')]: bad.append(('C16', 'the configuration file is searched with %r' % ([e[1:] for e in ev if e[0] == 'search'],)))
            if [e[1:] for e in ev if e[0] == 'load'] != [(CF, ('x', 'conf'))]: bad.append(('C16', 'the configuration loaded is not the file found on top of the given one'))
        else:
            if fe[0][2] != CF: bad.append(('C16', 'options given are not the ones used'))
            if any(e[0] in ('search', 'load') for e in ev): bad.append(('C16', 'a configuration file is consulted although options are given'))
        if any(e[0] == 'empty?' and e[1] != CF for e in ev): bad.append(('C16', 'the test for options looks at another configuration'))
    return bad, unclear, n, w
def process_buffer(ctx):
    P = ctx.prog; bad = []; unclear = []; n = 0
    T = ('x', 'content')
    def h_parse(I, st, c, a, ln):
        emit(st, 'parse', base(D(I, st, a[0])))
        return w.split(I, st, ('parse',), ok(('x', 'tree')), err(('x', 'perr')))
    def h_lr(I, st, c, a, ln):
        emit(st, 'range', base(D(I, st, a[0])), D(I, st, a[1])); return one(st, ('x', 'posrange'))
    def h_ui(I, st, c, a, ln):
        emit(st, 'index', base(D(I, st, a[0])))
        v = D(I, st, a[1]); fs = list(v[3]); fs[names.index('chars_to_bytes')] = ('x', 'table'); upd(I, st, a[1], ('A', v[1], v[2], tuple(fs)))
        return one(st, UNIT)
    def h_rc(I, st, c, a, ln):
        v = D(I, st, a[2])
        emit(st, 'prepare', D(I, st, a[0]), D(I, st, a[1]), v[3][names.index('pos_range')], v[3][names.index('chars_to_bytes')])
        fs = list(v[3]); fs[names.index('pos_range')] = ('x', 'posrange2'); upd(I, st, a[2], ('A', v[1], v[2], tuple(fs)))
        upd(I, st, a[0], ('x', 'prepared')); return one(st, UNIT)
    def h_cw(I, st, c, a, ln):
        node, f, cfg, buf, state = a
        v = D(I, st, state)
        emit(st, 'write', D(I, st, node), D(I, st, cfg), base(D(I, st, buf)), v[3][names.index('pos_range')], v[3][names.index('chars_to_bytes')],
             tuple(v[3][names.index(x)] for x in ('indent_level', 'function_nested_level', 'block_nested_level')), D(I, st, f))
        out = []
        for s, good in w.choose(I, st, ('write',), [True, False]):
            models.append(I, s, f, ('S', (('t', ('x', 'written' if good else 'partial')),)))
            out.append((s, ok(UNIT) if good else err(('x', 'werr'))))
        return out
    names = [f[0] for f in P.byPath['luafmt::config::State']['v'][0]['f']]
    CW = '<luafmt::parser::lua_ast::Node as luafmt::config::ConfiguredWrite>::configured_write'
    hooks = {PARSE: h_parse, 'luafmt::formatting::util::line_range_to_pos_range': h_lr, 'luafmt::formatting::reconstruction::update_indexes': h_ui,
             'luafmt::formatting::reconstruction::reconstruct_node_tree': h_rc, CW: h_cw,
             'display:luafmt::config::Config': lambda I, st, v: [(st, ('S', (('disp', v),)), True)]}
    for verbose in (False, True):
        w = World(P, hooks)
        C = cfgval(P)
        try: outs = w.run(PB, [('S', (('t', T),)), C if not verbose else ('x', 'cfg'), verbose])
        except Undecided as e: unclear.append('process_buffer_with_config: %s' % e); continue
        for s, r in outs:
            n += 1
            r = D(w.I, s, r); ev = fx(s)
            isok = isinstance(r, tuple) and r[:3] == ('A', RES, 0); iserr = isinstance(r, tuple) and r[:3] == ('A', RES, 1)
            if not (isok or iserr): unclear.append('process_buffer_with_config returns %r' % (r,)); continue
            if any(e[0] in ('read', 'open', 'fs', 'exit') for e in ev): bad.append(('C13', 'process_buffer_with_config touches files'))
            if not verbose and any(e[0] == 'stdout' for e in ev): bad.append(('C14', 'formatting prints to standard output'))
            g = lambda *k: s.heap.get(('world', k))
            if g('parse') is False or g('write') is False:
                if isok: bad.append(('C14', 'a text that cannot be %s gives a result instead of an error' % ('parsed' if g('parse') is False else 'formatted')))
                continue
            if iserr: bad.append(('C14', 'an error although nothing failed')); continue
            wr = [e for e in ev if e[0] == 'write']
            if len(wr) != 1 or base(D(w.I, s, r[3][0])) != ('x', 'written'): bad.append(('C01', 'the result is not exactly the text the writer produced')); continue
            e = wr[0]
            if e[1] != ('x', 'prepared'): bad.append(('C23', 'the tree written has not been prepared'))
            if e[3] != T or [x[1] for x in ev if x[0] == 'parse'] != [T]: bad.append(('C01', 'the writer and the parser see different texts'))
            if e[2] != (C if not verbose else ('x', 'cfg')): bad.append(('C16', 'the writer uses another configuration'))
            if [x[1] for x in ev if x[0] == 'index'] != [T] or e[5] != ('x', 'table'): bad.append(('C22', 'the position table the writer uses is not the one of the text'))
            if any(x[0] == 'prepare' and x[4] != ('x', 'table') for x in ev): bad.append(('C22', 'preparation runs without the position table'))
            if e[4] != ('x', 'posrange2') or any(x[0] == 'prepare' and x[3] != ('x', 'posrange') for x in ev): bad.append(('C09', 'the line range is not handed through preparation to the writer'))
            for x in ev:
                if x[0] == 'range' and (x[1] != T or not verbose and x[2] != ('x', 'lr')): bad.append(('C09', 'the line range is computed from something other than the text and the option'))
            if e[6] != (0, 0, 0): bad.append(('C18', 'writing starts at nesting %s' % (e[6],)))
            if e[7] != '': bad.append(('C01', 'something is written before the program'))
    return bad, unclear, n, w
def results(ctx):
    def go():
        r = {'bad': [], 'unclear': [], 'paths': 0, 'fns': set(), 'sites': 0}
        for f in (process_file, process_buffer):
            b, u, n, w = f(ctx)
            r['bad'] += b; r['unclear'] += u; r['paths'] += n; r['fns'] |= w.I.visited; r['sites'] += w.I.callsites
        return r
    return ctx.cached('libflow', go)
def report(rep, r, pid):
    for u in r['unclear']: rep.unclear(u)
    for p, m in r['bad']:
        if p == pid: rep.bad(m, m)
