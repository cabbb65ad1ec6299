"""Runs the writer (and the preparation pass) symbolically on the tree each production builds.

The text written is a sequence of pieces:
 ('k', s) literal characters   ('t', term) text of a symbolic string   ('sub', n) rendering of child n   ('self',) rendering of the
 construct itself by a nested call   ('gap', a, b) rendering of the source stretch a..b   ('gap0', a, b) same, known blank
 ('raw', a, b) verbatim source characters a..b   ('ws',) optional blank space   ('ERR',) text after a failed write
"""
from ai import *
import models

LOC = 'luafmt::parser::common::Loc'
BLANK_OPTS = ('hint_table_constructor', 'indentation_string', 'hint_before_comment', 'hint_after_multiline_comment')

def base(v):
    while isinstance(v, tuple) and v and v[0] == 'U': v = v[1]
    return v

def writer_key(prog):
    ks = [k for k in prog.raw if k.endswith('lua_ast::Node as luafmt::config::ConfiguredWrite>::configured_write')]
    return ks[0]
def comment_writer_key(prog):
    return [k for k in prog.raw if k.endswith('comment_ast::Node as luafmt::config::ConfiguredWrite>::configured_write')][0]
def recon_key(prog):
    return 'luafmt::formatting::reconstruction::reconstruct_node_tree'

def field_index(prog, path, name):
    for i, (n, t) in enumerate(prog.byPath[path]['v'][0]['f']):
        if n == name: return i
    raise Undecided('no field %s in %s' % (name, path))

def cfg_value(prog, given=None, line_range=('x', 'line_range')):
    given = given or {}
    fo = prog.byPath['luafmt::config::FormatOpts']
    fields = tuple(given.get(n, ('x', 'o:' + n)) for n, t in fo['v'][0]['f'])
    fmt = ('A', 'luafmt::config::FormatOpts', 0, fields)
    out = []
    for n, t in prog.byPath['luafmt::config::Config']['v'][0]['f']:
        out.append(fmt if n == 'fmt' else line_range if n == 'line_range' else ('x', 'cfg:' + n))
    return ('A', 'luafmt::config::Config', 0, tuple(out))

def state_value(prog, given=None):
    given = given or {}
    fs = []
    for n, t in prog.byPath['luafmt::config::State']['v'][0]['f']:
        fs.append(given.get(n, ('x', 'c2b') if 'HashMap' in t else ('x', 's:' + n)))
    return ('A', 'luafmt::config::State', 0, tuple(fs))

def symopts(v):
    """replace option records inside a node by symbols (a cell is named by the record holding it)"""
    n = [0]
    def go(v):
        if isinstance(v, tuple) and v:
            if v[0] == 'A':
                if v[1].endswith('Opts') and v[1] != 'luafmt::config::FormatOpts':
                    n[0] += 1
                    return ('x', 'opts%d' % n[0])
                return ('A', v[1], v[2], tuple(go(x) for x in v[3]))
            if v[0] in ('T', 'V'): return (v[0], tuple(go(x) for x in v[1]))
        return v
    return go(v)

class Writer:
    """one symbolic run of the writer on one node"""
    strict = False
    def __init__(self, prog, rawmode=False, budget=6000000):
        self.prog = prog
        self.wkey = writer_key(prog)
        self.ckey = comment_writer_key(prog)
        self.rkey = recon_key(prog)
        self.root = None
        self.leaves = []
        self.rawmode = rawmode          # keep raw and gap apart
        self.gaps = set()
        self.trials = 0
        self.accel = set()
        self.realcfg = None
        self.leaks = set()
        self.notes = []
        self.visits = {}
        self.selfs = set()              # nested renderings of the construct itself: (options changed, function, line)
        self.sidx = {n: i for i, (n, t) in enumerate(prog.byPath['luafmt::config::State']['v'][0]['f'])}
        I = self.I = Interp(prog, {
            self.wkey: self.h_node, self.ckey: self.h_comment, self.rkey: self.h_recon,
            'luafmt::parser::parse_comment': self.h_parse_comment,
            'model:slice': self.h_slice, 'model:pop': self.h_pop, 'model:trim': self.h_trim,
        }, budget)
        I.on_run = self.summary
        I.enter_view = self.enter
        I.exit_view = self.exit
        self.blank = set(('f', ('x', 'o:' + n), 1, 0) for n in BLANK_OPTS)

    # ---- hooks
    def h_node(self, I, st, c, a, ln):
        n = D_(I, st, a[0])
        b = base(n)
        if n == self.root:
            piece = ('self',)
            self.selfs.add((self.cfgdiff(I.deref(st, a[2])), I.stack[-1] if I.stack else '?', ln))
        elif is_sym(b): piece = ('sub', b)
        else: return NotImplemented
        out = []
        s2 = st.copy()
        models.append(I, st, a[1], ('S', (piece,)))
        self.dirty(I, st, a[4])
        out.append((st, OKU))
        models.append(I, s2, a[1], ('S', (('ERR',),)))
        self.dirty(I, s2, a[4], True)
        out.append((s2, err(FMTERR)))
        self.rendered(I, st, a, piece)
        return out
    def cfgdiff(self, cfg):
        if not (isinstance(cfg, tuple) and cfg[0] == 'A'): return None
        out = []
        for (n, t), v in zip(self.prog.byPath['luafmt::config::Config']['v'][0]['f'], cfg[3]):
            if n == 'fmt':
                if not (isinstance(v, tuple) and v[0] == 'A'): return None
                for (m, t2), w in zip(self.prog.byPath['luafmt::config::FormatOpts']['v'][0]['f'], v[3]):
                    if w != ('x', 'o:' + m): out.append((m, w))
        return tuple(sorted(out, key=repr))
    def rendered(self, I, st, a, piece):
        """what reaches the real output must be rendered with the real configuration"""
        if self.realcfg is None: return
        if self.target(st, a[1]) == ('H', 'f') and I.deref(st, a[2]) != self.realcfg:
            self.leaks.add(('trialcfg', '%s is written to the output with a trial configuration' % (piece[0],), I.stack[-1] if I.stack else '?'))
    def target(self, st, r):
        n = 0
        while isinstance(r, tuple) and r and r[0] == '&' and n < 20:
            if r[1] == ('H', 'f'): return r[1]
            try: v = self.I.read_loc(st, r[1], r[2])
            except Exception: return r[1]
            if not models.isref(v): return r[1]
            r = v; n += 1
        return None
    def summary(self, I, st, f, args):
        """loops over a child the construct does not own: the list writer on a symbolic list, a conversion of a symbolic text"""
        if not self.prog.loops(f.key): return None
        tys = [f.locals[i + 1] if i + 1 < len(f.locals) else '' for i in range(len(args))]
        ret = f.locals[0]
        if '&mut alloc::string::String' in tys and '&mut luafmt::config::State' in tys and ret.startswith('core::result::Result<bool'):
            fr = args[tys.index('&mut alloc::string::String')]
            sr = args[tys.index('&mut luafmt::config::State')]
            nodes = [base(I.deref(st, a)) for a, t in zip(args, tys) if t.endswith('lua_ast::Node')]
            if len(nodes) == 1 and is_sym(nodes[0]):
                out = []
                for res, piece in ((ok(True), ('subl', nodes[0])), (ok(False), ('subl', nodes[0])), (err(FMTERR), ('ERR',))):
                    s = st.copy()
                    models.append(I, s, fr, ('S', (piece,)))
                    self.dirty(I, s, sr, piece == ('ERR',))
                    out.append((s, res))
                return out
        r = self.counted(I, st, f, args)
        if r is not None: return r
        if ret == 'alloc::string::String' and len(args) == 1 and tys[0] in ('&str', '&alloc::string::String'):
            v = I.deref(st, args[0])
            if not isinstance(v, (str,)) and (is_sym(v) or isinstance(v, tuple) and v[0] == 'S'):
                return [(st, ('call', 'conv:' + f.key, v))]
        return None
    def counted(self, I, st, f, args):
        """a loop that writes the same text as often as a number of the state says: found by running it for the numbers 0 to 3"""
        if f.key in self.accel or not self.prog.loops(f.key): return None
        tys = [f.locals[i + 1] if i + 1 < len(f.locals) else '' for i in range(len(args))]
        if not ('&mut alloc::string::String' in tys and '&luafmt::config::State' in tys and f.locals[0].startswith('core::result::Result<()')): return None
        fr = args[tys.index('&mut alloc::string::String')]; si = tys.index('&luafmt::config::State')
        sv = I.deref(st, args[si])
        if not (isinstance(sv, tuple) and sv[0] == 'A'): return None
        pre = pieces(I.deref(st, fr))
        cell = ('H', 'counted')
        for j, (n, t) in enumerate(self.prog.byPath[sv[1]]['v'][0]['f']):
            if t not in ('usize', 'isize') or isinstance(sv[3][j], int): continue
            runs = []
            self.accel.add(f.key); views = I.enter_view, I.exit_view, I.nomerge; I.enter_view = I.exit_view = None; I.nomerge = True
            try:
                for k in range(4):
                    s = st.copy(); s.heap[cell[1]] = ('A', sv[1], sv[2], sv[3][:j] + (k,) + sv[3][j + 1:])
                    a2 = list(args); a2[si] = ('&', cell, ())
                    o = {}
                    for s2, r in I.run(s, f.key, a2):
                        new = pieces(I.deref(s2, fr)); s2.heap.pop(cell[1], None)
                        if r != OKU or new[:len(pre)] != pre or s2.frames != st.frames: return None
                        key = tuple(sorted(((t_, d) for t_, d in s2.facts.items()), key=repr))
                        if key in o: return None
                        o[key] = (s2, new[len(pre):])
                    runs.append(o)
            except (Undecided, LoopBound): continue
            finally: self.accel.discard(f.key); I.enter_view, I.exit_view, I.nomerge = views
            if any(set(o) != set(runs[1]) for o in runs): continue
            out = []
            for key, (s2, one) in runs[1].items():
                flat = lambda ps: tuple(x for p in ps for x in (p if isinstance(p, str) else [p]))
                if any(flat(runs[k][key][1]) != flat(one) * k for k in (0, 2, 3)): out = None; break
                if one: models.upd(I, s2, fr, ('S', pre + (('rep', one, sv[3][j]),)))
                out.append((s2, OKU))
            if out: return out
        return None
    def dirty(self, I, st, ref, failed=False):
        v = I.deref(st, ref)
        fs = list(v[3])
        # a rendering that failed half-way leaves the nesting as it was at that point
        for n in ('comment_pos_range', 'comment_offset') + (('indent_level', 'stack_indent', 'function_nested_level', 'block_nested_level') if failed else ()):
            if n in self.sidx: fs[self.sidx[n]] = ('x', 'hv:' + n)
        models.upd(I, st, ref, ('A', v[1], v[2], tuple(fs)))
    def h_parse_comment(self, I, st, c, a, ln):
        v = I.deref(st, a[0])
        s2 = st.copy()
        return [(st, ok(('cnode', v))), (s2, err(('x', 'perr')))]
    def h_comment(self, I, st, c, a, ln):
        n = I.deref(st, a[0])
        if n[0] != 'cnode': return NotImplemented
        src = n[1]
        buf = I.deref(st, a[3])
        ps = pieces(src)
        stv = I.deref(st, a[4])
        if ps == (): piece = ()
        elif len(ps) == 1 and ps[0][0] == 'raw':
            off = stv[3][self.sidx['comment_offset']]
            if buf == src and off == ps[0][1]: piece = (('gap', ps[0][1], ps[0][2]),)
            else: piece = (('badgap', ps[0][1], ps[0][2], 'buffer' if buf != src else 'offset'),)
        else: piece = (('badgap', src),)
        s2 = st.copy()
        models.append(I, st, a[1], ('S', piece) if piece else '')
        models.append(I, s2, a[1], ('S', (('ERR',),)))
        return [(st, OKU), (s2, err(FMTERR))]
    def h_recon(self, I, st, c, a, ln):
        n = I.deref(st, a[0])
        b = base(n)
        if is_sym(b):
            k = ('visited', b)
            st.heap[k] = st.heap.get(k, 0) + 1
            return [(st, UNIT)]
        return NotImplemented
    def h_slice(self, I, st, v, lo, hi, ln):
        if v == ('x', 'BUF'):
            def pos(x):
                if x == 0: return 0
                if isinstance(x, tuple) and x[0] == 'bp': return x[1]
                return None
            a, b = pos(lo), pos(hi) if hi is not None else None
            if a is not None and b is not None:
                if a == b: return [(st, '')]
                return [(st, ('S', (('raw', a, b),)))]
            return [(st, ('S', (('badslice', lo, hi),)))]
        return None
    def h_pop(self, I, st, ref, v, l):
        d = st.facts.get(('d', l))
        chars = st.facts.get(('f', l, 1, 0))
        if chars and chars[0] == 'in' and all(isinstance(x, tuple) and x[0] == 'ch' and chr(x[1]) in ' \t\n\r' for x in chars[1]):
            ps = pieces(v)
            if self.rawmode and ps[-1][0] == 'raw': models.upd(I, st, ref, ('S', ps + (('popped',),)))
            # a blank is removed: the text keeps its pieces, its end is unknown again
            n = ('S', tuple(p for p in ps if p != ('ws',)) + (('ws',),))
            models.upd(I, st, ref, n)
            return [(st, l)]
        sure = not any(t[0] == 'pred' or t[0] == 'b' and t[1] != 'empty' for t in st.facts if l in models.walk(t) or ('f', l, 1, 0) in models.walk(t))
        models.upd(I, st, ref, ('S', pieces(v) + (('popped' if sure else 'popped?',),)))
        return [(st, l)]
    def h_trim(self, I, st, v, side, cls):
        if side != 'r' or cls == 'ws': return None
        if not all(ch in ' \t' for ch in cls): return None
        ps = pieces(v)
        if any(not isinstance(p, str) and p[0] not in ('gap', 'gap0', 'ws', 'raw') for p in ps): return None
        return [(st, ('S', (('trim', side, ps),)))]

    # ---- normal form of written text
    def norm(self, ps, keep_lead=True):
        out = []
        ws = False
        for i, p in enumerate(ps):
            if isinstance(p, str):
                for j, w in enumerate(re.split(r'(\s+)', p)):
                    if not w: continue
                    if w.isspace(): ws = True
                    else: out.append(('k', w))
            elif p[0] == 'k': out.append(p)
            elif p[0] == 'ws': ws = True
            elif p[0] == 't' and p[1] in self.blank: ws = True
            elif p[0] == 'rep' and all((not isinstance(x, str)) and x[0] == 't' and x[1] in self.blank or isinstance(x, str) and x.isspace() for x in p[1]): ws = True
            elif p[0] == 'trim': out += [q for q in self.norm(p[2]) if q != ('ws',)]
            elif p[0] == 'raw' and not self.rawmode and (p[1], p[2]) in self.gaps: out.append(('gap', p[1], p[2]))
            elif p[0] == 'S': out += self.norm(p[1])
            else: out.append(p)
        out.append(('ws',))
        return tuple(out)
    EV = ('gap', 'gap0', 'sub', 'self', 'raw', 'ERR', 'badgap', 'k', 'popped', 'badslice')
    def enter(self, I, st, f, args):
        tok = {}
        for i, a in enumerate(args):
            ty = f.locals[i + 1] if i + 1 < len(f.locals) else ''
            if isinstance(a, tuple) and a and a[0] == '&':
                if ty == '&mut alloc::string::String':
                    tok[i] = ('s', pieces(I.deref(st, a)))
                elif ty == '&mut luafmt::config::State':
                    tok[i] = ('st', I.deref(st, a))
            if ty.lstrip('&') == 'luafmt::config::Config' and self.realcfg is not None and I.deref(st, a) != self.realcfg: tok['cfg'] = True
        return tok
    def nval(self, v):
        """normalise texts inside a returned value"""
        if isinstance(v, tuple) and v:
            if v[0] == 'S' and any(not isinstance(p, str) and p[0] in self.EV for p in v[1]):
                return ('S', self.norm(v[1]))
            if v[0] == 'A': return ('A', v[1], v[2], tuple(self.nval(x) for x in v[3]))
        return v
    def exit(self, I, f, args, outs, tok):
        tok2 = {'cfg': 1} if 'cfg' in tok else {}
        tok = {i: x for i, x in tok.items() if i != 'cfg'}
        if not tok or not outs:
            return I.merge_outs(outs)
        res = []
        deltas = []
        for s, r in outs:
            isErr = isinstance(r, tuple) and r[0] == 'A' and r[1] == RES and r[2] == 1
            dl = {}
            for i, (k, v) in tok.items():
                if k == 's':
                    cur = pieces(I.deref(s, args[i]))
                    if cur != v and not isErr and 'cfg' in tok2 and self.target(s, args[i]) == ('H', 'f'):
                        self.leaks.add(('trialcfg', 'text is written to the output with a trial configuration', f.key))
                    ev = v[:]
                    if isErr: new = tuple(ev) + ((('ERR',),) if cur != v else ()); d = None
                    else:
                        new = self.norm(cur)
                        ne = self.norm(ev)
                        d = new[len(ne) - 1:] if new[:len(ne) - 1] == ne[:-1] else None
                        if cur == v: new = cur; d = ()
                        elif v == (): pass
                    dl[i] = [d, new, cur]
                else:
                    cur = I.deref(s, args[i])
                    if cur[0] == 'A' and v[0] == 'A' and cur != v:
                        fs = list(cur[3])
                        for n in ('comment_pos_range', 'comment_offset'):
                            j = self.sidx.get(n)
                            if j is not None and fs[j] != v[3][j]: fs[j] = ('x', 'hv:' + n)
                        models.upd(I, s, args[i], ('A', cur[1], cur[2], tuple(fs)))
            # gaps known to be blank and not written
            if not isErr:
                blanks = []
                for t, d in s.facts.items():
                    if t[0] == 'b' and t[1] == 'empty' and d == ('in', frozenset([True])):
                        for p in self.norm(t[2]):
                            if p[0] in ('gap', 'raw'): blanks.append(('gap0', p[1], p[2]))
                if blanks:
                    for i in dl:
                        new = dl[i][1]
                        for g in blanks:
                            if g not in new and ('gap',) + g[1:] not in new:
                                new = new[:-1] + (g, ('ws',)) if new and new[-1] == ('ws',) else new + (g, ('ws',))
                                if dl[i][0] is not None:
                                    dl[i][0] = tuple(x for x in dl[i][0] if x != ('ws',)) + (g, ('ws',))
                        dl[i][1] = new
            deltas.append(dl)
        for (s, r), dl in zip(outs, deltas):
            for i in dl:
                d, new, cur = dl[i]
                if d:
                    core = tuple(x for x in d if x != ('ws',))
                    if not self.strict and len(core) == 1 and core[0][0] == 'gap0':
                        g = ('gap',) + core[0][1:]
                        if any(o[i][0] and tuple(x for x in o[i][0] if x != ('ws',)) == (g,) for o in deltas if i in o):
                            new = tuple(g if x == core[0] else x for x in new)
                if new != cur: models.upd(I, s, args[i], mkS2(new))
            # facts about the ends of texts and about what trials measured do not outlive the function
            for t in [t for t in s.facts if volatile(t)]: del s.facts[t]
            res.append((s, self.nval(r)))
        return I.merge_outs(res)

    # ---- driving
    def setup(self, leaves):
        self.leaves = leaves
        pts = [('gap', leaves[i][2], leaves[i + 1][1]) for i in range(len(leaves) - 1)]
        self.gaps = set((a, b) for _, a, b in pts)
    def prepare(self, node):
        """run the preparation pass; returns [(state, node)]"""
        st = St()
        st.heap['node'] = node
        st.heap['state'] = state_value(self.prog)
        self.root = None
        outs = self.I.run(st, self.rkey, [('&', ('H', 'node'), ()), self.cfg(), ('&', ('H', 'state'), ())])
        return [(s, s.heap['node']) for s, _ in outs]
    def cfg(self): return cfg_value(self.prog)
    def write(self, node, given_state=None, cfg=None, facts=None):
        node = symopts(node)
        self.root = node
        st = St()
        if facts: st.facts.update(facts)
        st.heap['f'] = ('S', (('pre',),))
        st.heap['state'] = state_value(self.prog, given_state)
        self.realcfg = cfg or self.cfg()
        outs = self.I.run(st, self.wkey, [node, ('&', ('H', 'f'), ()), self.realcfg, ('x', 'BUF'), ('&', ('H', 'state'), ())])
        return [(s, r, pieces(s.heap['f'])) for s, r in outs]

def D_(I, st, v): return I.deref(st, v)
def mkS2(ps):
    return ('S', tuple(ps)) if ps else ''
def volatile(t):
    for x in models.walk(t):
        if isinstance(x, tuple) and x and x[0] in ('lastch', 'firstch', 'it.count'): return True
        if isinstance(x, tuple) and len(x) > 1 and x[0] == 'call' and x[1] in ('it.count', 'find'): return True
    if t[0] == 'b' and t[1] == 'empty': return True
    return False
