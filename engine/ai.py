"""Path-sensitive abstract interpretation of dumped MIR.  See DESIGN.md section "Engine".

Values
  bool, int, str (known string), bytes, None never
  ('ch', n)                       known char
  ('S', pieces)                   string with symbolic pieces; a piece is str or a tuple
  ('A', path, variant, fields)    struct / enum value
  ('T', items)  ('V', items)      tuple / vec, array, slice
  ('F', key, captures)            closure          ('fn', callee_id)   function item
  ('dyn', value, methods)         trait object
  ('&', root, path)               mutable reference / raw pointer to a place
  ('It', kind, ...)               iterator
  anything else: symbolic term    ('x',name) ('f',base,variant,i) ('call',name,args..) ('lin',c,terms) ('U',base,overlay) ...
Boolean terms: ('not',t) ('eq',a,b) ('le0',lin) ('and',a,b) ('or',a,b) other
Shared references and boxes are transparent: the value itself.
"""
import json, os, re, sys, tempfile
sys.setrecursionlimit(20000)

class Infeasible(Exception): pass
class Undecided(Exception): pass
class LoopBound(Undecided): pass

UNIT = ('T', ())
CONCRETE_TAGS = ('A', 'T', 'V', 'F', 'fn', 'dyn', '&', 'It', 'S', 'ch')

def is_sym(v):
    return isinstance(v, tuple) and v[0] not in CONCRETE_TAGS

OPT = 'core::option::Option'
RES = 'core::result::Result'
def none(): return ('A', OPT, 0, ())
def some(v): return ('A', OPT, 1, (v,))
def ok(v): return ('A', RES, 0, (v,))
def err(v): return ('A', RES, 1, (v,))
FMTERR = ('A', 'core::fmt::Error', 0, ())
OKU = ok(UNIT)

# ---------------------------------------------------------------- program
class Fn:
    __slots__ = ('key', 'path', 'file', 'line', 'argc', 'spread', 'closure', 'locals', 'names', 'bb', 'rpo', 'live', 'muts', 'ours', 'nblocks', '_loops', '_pure', 'heads')

def strip_box(place, locs):
    if isinstance(place, list) and len(place) > 1 and place[1][0] == 'f' and locs[place[0]].startswith('alloc::boxed::Box<'):
        return [place[0]] + place[2:]
    return place

class Prog:
    def __init__(self, outdir):
        self.fns = {}
        self.raw = {}
        self.adts = {}
        self.byPath = {}
        self.discrs = {}
        self.statics = {}          # name: (mutable, without interior mutability, type)
        for n in ('lib', 'bin'):
            d = json.load(open(os.path.join(outdir, 'luafmt-%s.json' % n)))
            for k, f in d['fns'].items():
                if k not in self.raw:
                    self.raw[k] = f
            self.statics.update(d.get('statics') or {})
            for t, a in d['adts'].items():
                if a is None: continue
                self.adts.setdefault(t, a)
                p = a['path']
                if p not in self.byPath:
                    self.byPath[p] = a
                    for i, v in enumerate(a['v']):
                        self.discrs[(p, i)] = v['d']
        self.outdir = outdir

    def fn(self, key):
        f = self.fns.get(key)
        if f is None:
            r = self.raw.get(key)
            if r is None:
                return None
            f = self.fns[key] = self.prep(key, r)
        return f

    def adt_path(self, ty):
        a = self.adts.get(ty)
        if a: return a['path']
        return ty.split('<')[0]

    def find(self, path):
        """keys of the functions whose def path is `path`"""
        return [k for k, r in self.raw.items() if r['path'] == path]

    def prep(self, key, r):
        f = Fn()
        f.key = key; f.path = r['path']; f.file = r['file']; f.line = r['line']; f.argc = r['argc']
        f.spread = r['spread']; f.closure = r['closure']; f.locals = r['locals']; f.names = r['names']; f.ours = r['ours']
        locs = r['locals']
        def pl(p):
            if isinstance(p, int): return (p, ())
            p = strip_box(p, locs)
            out = []
            variant = 0
            for e in p[1:]:
                if e == '*': out.append('*'); variant = 0
                elif e[0] == 'v': variant = e[1]
                elif e[0] == 'f': out.append(('f', variant, e[1])); variant = 0
                elif e[0] in ('i', 'c', 's'): out.append(tuple(e)); variant = 0
                else: pass
            return (p[0], tuple(out))
        def const(c):
            k = c[0]
            if k == 'str': return ('lit', c[1])
            if k == 'bytes': return ('lit', bytes(c[1]))
            if k == 'b': return ('lit', c[1])
            if k == 'ch': return ('lit', ('ch', c[1]))
            if k == 'n': return ('lit', c[1])
            if k == 'bits' and c[1] == 0 and c[2].startswith('core::option::Option<&'): return ('lit', none())
            if k == 'bits': return ('lit', ('x', 'bits%s' % c[1]))
            if k == 'zst':
                ty = c[1]
                if ty == '()': return ('lit', UNIT)
                if ty.startswith('('): return ('lit', UNIT)
                return ('lit', ('A', self.adt_path(ty), 0, ()))
            if k == 'fn': return ('lit', ('fn', self.callee_id(c[1])))
            if k == 'static': return ('static', c[1])
            if k == 'prom': return ('prom', c[1])
            if k == 'agg':
                ty = c[1]
                fs = tuple(const(x) for x in c[3])
                if all(x[0] == 'lit' for x in fs):
                    vals = tuple(x[1] for x in fs)
                    if ty.startswith('('): return ('lit', ('T', vals))
                    if ty.startswith('['): return ('lit', ('V', vals))
                    return ('lit', ('A', self.adt_path(ty), c[2], vals))
                return ('cagg', ty, c[2], fs)
            if k == 'opaque' or k == 'ptr': return ('lit', ('x', 'const:' + c[1]))
            return ('lit', ('x', 'const?' + str(c)))
        def op(o):
            if o[0] == 'k': return ('k', const(o[1]))
            l, path = pl(o[1])
            return ('p', l, path)
        def rv(x, ln):
            k = x[0]
            if k == 'use': return ('use', op(x[1]))
            if k == 'rep': return ('rep', op(x[1]), x[2])
            if k == 'ref': return ('ref', pl(x[1]), x[2])
            if k == 'cast':
                return ('cast', x[1], op(x[2]), x[3], x[4], x[5] if len(x) > 5 else None)
            if k == 'bin': return ('bin', x[1], op(x[2]), op(x[3]), x[4])
            if k == 'un': return ('un', x[1], op(x[2]))
            if k == 'discr': return ('discr', pl(x[1]), x[2])
            if k == 'agg':
                kk = x[1]
                ops = tuple(op(o) for o in x[2])
                if kk[0] == 'adt': return ('agg', 'adt', self.adt_path(kk[1]), kk[2], ops)
                if kk[0] == 'closure': return ('agg', 'closure', kk[1], None, ops)
                return ('agg', kk[0], None, None, ops)
            if k == 'tls': return ('tls', x[1])
            return ('other', str(x[1])[:200])
        bbs = []
        muts = set()
        for b in r['bb']:
            if b['c']:
                bbs.append(None); continue
            ss = []
            for s in b['s']:
                if s[0] == '=':
                    q = rv(s[2], s[3])
                    if q[0] == 'ref' and q[2]: muts.add(q[1][0])
                    d = pl(s[1])
                    # copying a box out of a place is taking the address of that place
                    if q[0] == 'use' and q[1][0] == 'p' and not d[1] and locs[d[0]].startswith('alloc::boxed::Box<') and s[2][1][0] == 'p':
                        q = ('boxcopy', (q[1][1], q[1][2]))
                        muts.add(q[1][0])
                    ss.append(('=', d, q, s[3]))
                elif s[0] == 'sd': ss.append(('sd', pl(s[1]), s[2]))
                elif s[0] == 'dead': ss.append(('dead', s[1]))
                else: ss.append(('intrinsic',))
            t = b['t']
            k = t[0]
            if k == 'goto': tt = ('goto', t[1])
            elif k == 'sw': tt = ('sw', op(t[1]), tuple((v, bb) for v, bb in t[2]), t[3], t[4], t[5])
            elif k == 'ret': tt = ('ret',)
            elif k == 'unr': tt = ('unr',)
            elif k == 'drop': tt = ('goto', t[2])
            elif k == 'call':
                c = t[1]
                if 'op' in c: cc = ('ind', op(c['op']), c['ty'])
                else: cc = ('dir', self.callee_id(c))
                tt = ('call', cc, tuple(op(a) for a in t[2]), pl(t[3]), t[4], t[6], t[7])
            elif k == 'assert': tt = ('assert', op(t[1]), t[2], t[3], t[4], t[6])
            else: tt = ('stop', k)
            bbs.append((tuple(ss), tt))
        f.bb = bbs
        f.muts = muts
        self.analyse(f)
        return f

    def callee_id(self, c):
        """a hashable description of a callee"""
        key = c.get('k') or c.get('i')
        return Callee.get(c.get('p'), c.get('r') or c.get('p'), key, tuple(c.get('g', ())), bool(c.get('virt')), c.get('virt'),
                          tuple(c['ctor']) if 'ctor' in c else None)

    SCALARS = ('bool', 'char', 'usize', 'u8', 'u32', 'i32', 'isize', 'u64', 'i64')
    def pure_scalar(self, f):
        """a looping function that takes no mutable reference and returns a scalar"""
        r = getattr(f, '_pure', None)
        if r is None:
            L = f.locals
            r = f._pure = (f.ours and not f.closure and L[0] in self.SCALARS and self.loops(f.key)
                           and not any('&mut' in t or 'Cell<' in t or 'dyn ' in t for t in L[1:f.argc + 1]))
        return r
    def loops(self, key):
        """does the body of `key` contain a cycle"""
        f = self.fn(key)
        r = getattr(f, '_loops', None)
        if r is None:
            r = f._loops = any(f.rpo.get(x, 1 << 30) <= f.rpo[b] for b in f.rpo for x in self.succs(f.bb[b][1]))
        return r
    def succs(self, t):
        k = t[0]
        if k == 'goto': return [t[1]]
        if k == 'sw': return [b for _, b in t[2]] + [t[3]]
        if k == 'call': return [t[4]] if t[4] is not None else []
        if k == 'assert': return [t[4]]
        return []

    def analyse(self, f):
        # reverse postorder
        seen = set(); order = []
        stack = [(0, iter(self.succs(f.bb[0][1])))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for n in it:
                if n not in seen and f.bb[n] is not None:
                    seen.add(n); stack.append((n, iter(self.succs(f.bb[n][1])))); break
            else:
                order.append(b); stack.pop()
        order.reverse()
        f.rpo = {b: i for i, b in enumerate(order)}
        f.nblocks = len(order)
        f.heads = {x: b for b in order for x in self.succs(f.bb[b][1]) if x in f.rpo and f.rpo[x] <= f.rpo[b]}
        # liveness of whole locals
        use = {}; de = {}
        for b in order:
            u = set(); d = set()
            def rd(l):
                if l not in d: u.add(l)
            def rdpath(p):
                for e in p:
                    if e != '*' and e[0] == 'i': rd(e[1])
            def rop(o):
                if o[0] == 'p': rd(o[1]); rdpath(o[2])
            def rpl(p):
                rd(p[0]); rdpath(p[1])
            def wpl(p):
                if p[1]: rd(p[0]); rdpath(p[1])
                else: d.add(p[0])
            ss, t = f.bb[b]
            for s in ss:
                if s[0] == '=':
                    q = s[2]
                    k = q[0]
                    if k in ('use',): rop(q[1])
                    elif k == 'boxcopy': rpl(q[1])
                    elif k == 'rep': rop(q[1])
                    elif k == 'ref': rpl(q[1])
                    elif k == 'cast': rop(q[2])
                    elif k == 'bin': rop(q[2]); rop(q[3])
                    elif k == 'un': rop(q[2])
                    elif k == 'discr': rpl(q[1])
                    elif k == 'agg':
                        for o in q[4]: rop(o)
                    wpl(s[1])
                elif s[0] == 'sd': rpl(s[1])
                elif s[0] == 'dead': d.add(s[1])
            k = t[0]
            if k == 'sw': rop(t[1])
            elif k == 'assert': rop(t[1])
            elif k == 'call':
                if t[1][0] == 'ind': rop(t[1][1])
                for o in t[2]: rop(o)
                wpl(t[3])
            elif k == 'ret': rd(0)
            use[b] = u; de[b] = d
        live = {b: set() for b in order}
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                o = set()
                for n in self.succs(f.bb[b][1]):
                    if n in live: o |= live[n]
                i = use[b] | (o - de[b])
                if i != live[b]:
                    live[b] = i; ch = True
        f.live = live

class Callee:
    _c = {}
    __slots__ = ('p', 'r', 'key', 'g', 'virt', 'vpath', 'ctor')
    @classmethod
    def get(cls, *a):
        x = cls._c.get(a)
        if x is None:
            x = cls()
            x.p, x.r, x.key, x.g, x.virt, x.vpath, x.ctor = a
            cls._c[a] = x
        return x
    def __repr__(self): return 'Callee(%s)' % (self.key or self.r)

# ---------------------------------------------------------------- linear integer terms
def lin(v):
    """(c, {term: coef})"""
    if isinstance(v, bool): return (int(v), {})
    if isinstance(v, int): return (v, {})
    if isinstance(v, tuple) and v[0] == 'lin': return (v[1], dict(v[2]))
    return (0, {v: 1})
def mklin(c, ts):
    ts = {k: n for k, n in ts.items() if n != 0}
    if not ts: return c
    if c == 0 and len(ts) == 1:
        (k, n), = ts.items()
        if n == 1: return k
    return ('lin', c, tuple(sorted(ts.items(), key=repr)))
def add(a, b, k=1):
    ca, ta = lin(a); cb, tb = lin(b)
    for t, n in tb.items(): ta[t] = ta.get(t, 0) + k * n
    return mklin(ca + k * cb, ta)
def mul(a, b):
    if isinstance(a, int): a, b = b, a
    if isinstance(b, int):
        c, t = lin(a)
        return mklin(c * b, {x: n * b for x, n in t.items()})
    return ('call', 'mul', a, b)
PIECE = ('trim', 'gap', 'gap0', 'gapt', 'rawgap', 'ws', 'sub', 'subl', 'self', 'raw', 'WS')
def no_text(x):
    """the pieces of a text, for the length x of a text"""
    def one(t): return isinstance(t, tuple) and t[:2] == ('call', 'len') and len(t) == 3 and isinstance(t[2], tuple) and t[2] and t[2][0] in PIECE
    if one(x): return (x[2],)
    if isinstance(x, tuple) and x[0] == 'lin' and x[1] == 0 and all(k == 1 and one(t) for t, k in x[2]): return tuple(t[2] for t, k in x[2])
    return None
def le0(x):
    if isinstance(x, int): return x <= 0
    p = no_text(x)
    if p: return ('b', 'empty', p)
    if isinstance(x, tuple) and x[0] == 'lin' and x[1] == 1:
        p = no_text(add(1, x, -1))
        if p: return ('not', ('b', 'empty', p))
    return ('le0', x)
def le(a, b): return le0(add(a, b, -1))
def lt(a, b): return le0(add(add(a, b, -1), 1))

def lnot(t):
    if isinstance(t, bool): return not t
    if t[0] == 'not': return t[1]
    if t[0] == 'le0': return le0(add(1, t[1], -1))
    return ('not', t)

# ---------------------------------------------------------------- strings
def pieces(v):
    if isinstance(v, str): return (v,) if v else ()
    if isinstance(v, tuple):
        if v[0] == 'S': return v[1]
        if v[0] == 'ch': return (chr(v[1]),)
        return (('t', v),)
    raise Undecided('not a string: %r' % (v,))
def mkS(ps):
    out = []
    for p in ps:
        if isinstance(p, str):
            if not p: continue
            if out and isinstance(out[-1], str): out[-1] += p
            else: out.append(p)
        else: out.append(p)
    if not out: return ''
    if len(out) == 1:
        if isinstance(out[0], str): return out[0]
        if out[0][0] == 't': return out[0][1]
    return ('S', tuple(out))
def concat(a, b): return mkS(pieces(a) + pieces(b))

# ---------------------------------------------------------------- machine state
class St:
    __slots__ = ('frames', 'heap', 'facts')
    def __init__(self, frames=None, heap=None, facts=None):
        self.frames = frames if frames is not None else []
        self.heap = heap if heap is not None else {}
        self.facts = facts if facts is not None else {}
    def copy(self):
        return St([dict(f) for f in self.frames], dict(self.heap), dict(self.facts))

    # --- facts: term -> ('in', frozenset) | ('!', frozenset)
    def dom(self, t): return self.facts.get(t)
    def known(self, t):
        d = self.facts.get(t)
        if d and d[0] == 'in' and len(d[1]) == 1:
            return next(iter(d[1]))
        return None
    reads = None        # where set: collects the terms decisions were made on
    def restrict_in(self, t, vals):
        if St.reads is not None: St.reads.add(t)
        d = self.facts.get(t)
        if d is None: n = frozenset(vals); self.facts[t] = ('in', n); return bool(n)
        if d[0] == 'in': n = d[1] & frozenset(vals)
        else: n = frozenset(vals) - d[1]
        self.facts[t] = ('in', n)
        return bool(n)
    def restrict_out(self, t, vals):
        if St.reads is not None: St.reads.add(t)
        d = self.facts.get(t)
        if d is None: self.facts[t] = ('!', frozenset(vals)); return True
        if d[0] == 'in':
            n = d[1] - frozenset(vals); self.facts[t] = ('in', n); return bool(n)
        self.facts[t] = ('!', d[1] | frozenset(vals)); return True

def join_facts(a, b):
    out = {}
    for t, d in a.items():
        e = b.get(t)
        if e is None: continue
        if d == e: out[t] = d; continue
        if d[0] == 'in' and e[0] == 'in': n = ('in', d[1] | e[1])
        elif d[0] == '!' and e[0] == '!':
            x = d[1] & e[1]
            if not x: continue
            n = ('!', x)
        else:
            if d[0] == 'in': d, e = e, d
            x = d[1] - e[1]
            if not x: continue
            n = ('!', x)
        if n[0] == 'in' and t and isinstance(t, tuple) and t[0] in ('le0', 'eq', 'b') and len(n[1]) > 1: continue
        out[t] = n
    return out

def exact_join(a, b):
    """the facts that hold exactly where a or b does, or None"""
    diff = None
    for t in a.keys() | b.keys():
        d, e = a.get(t), b.get(t)
        if d == e: continue
        # what a variant carries says nothing where the value is another variant
        if (d is None or e is None) and t[0] == 'f' and len(t) == 4:
            o = (a if d is None else b).get(('d', t[1]))
            if o and o[0] == 'in' and t[2] not in o[1]: continue
        if diff is not None: return None
        diff = t
    out = {}
    for t in a.keys() | b.keys():
        if t != diff: out[t] = a[t] if t in a else b[t]
    if diff is None: return out
    d, e = a.get(diff), b.get(diff)
    if d is None or e is None: return out
    if d[0] == 'in' and e[0] == 'in': n = ('in', d[1] | e[1])
    elif d[0] == '!' and e[0] == '!': n = ('!', d[1] & e[1])
    else:
        if d[0] == 'in': d, e = e, d
        n = ('!', d[1] - e[1])
    if n[0] == '!' and not n[1]: return out
    if n[0] == 'in' and (n[1] == frozenset([True, False]) or diff[0] == 'd' and n[1] == frozenset([0, 1])): return out
    out[diff] = n
    return out
def absorb(lst, s):
    i = 0
    while i < len(lst):
        f = exact_join(lst[i].facts, s.facts)
        if f is None: i += 1; continue
        s = lst.pop(i); s.facts = f; i = 0
    lst.append(s)

# ---------------------------------------------------------------- what the runs of an analysis said about places that can panic
class Log:
    """per place (function, line): outcomes of the MIR's own assertions, calls made, panics reached, and calls whose safety was left open"""
    def __init__(self): self.asserts = {}; self.sites = set(); self.panics = set(); self.open = set(); self.fns = set()
    def merge(self, o):
        for k, v in o.asserts.items():
            d = self.asserts.setdefault(k, {})
            for a, n in v.items():
                if len(d) < 12 or a in ('ok', 'fails'): d.setdefault(a, n)
        self.sites |= o.sites; self.panics |= o.panics; self.open |= o.open; self.fns |= o.fns
LOG = None
LOGDIR = None
def flushlog():
    """a worker process hands its log over"""
    global LOG
    if LOG is None or LOGDIR is None: return
    import pickle
    with tempfile.NamedTemporaryFile(dir=LOGDIR, delete=False) as f: pickle.dump(LOG, f)
    LOG = Log()

def terms_of(t):
    """the named symbols in a term"""
    out = []; work = [t]
    while work:
        x = work.pop()
        if isinstance(x, tuple) and x:
            if x[0] == 'x' and len(x) == 2 and isinstance(x[1], str): out.append(x)
            else: work.extend(x)
    return out
# ---------------------------------------------------------------- interpreter
class Interp:
    def __init__(self, prog, hooks=None, budget=3000000):
        self.prog = prog
        self.hooks = hooks or {}       # def path or key -> python model
        self.budget = budget
        self.steps = 0
        self.panics = []               # (fnkey, line, kind, state)
        self.asserts = {}              # (fnkey,line,msg) -> set of outcomes
        self.on_run = None
        self.enter_view = None         # callback (interp, st, fn, args) -> token
        self.exit_view = None          # callback (interp, fn, args, outs, token) -> outs, may normalise the states
        self.unmodelled = {}
        self.signed = set()
        self.nomerge = False; self.exact = False; self.loopcap = 400; self.opaque_ok = True; self.canon = None; self.watch = None; self.watched = []
        self.stack = []
        self.trace = None
        self.on_panic = None
        self.visited = set()           # functions entered
        self.callsites = 0
        self.havoc_ok = False
        self.nonneg = lambda t: True
        import models
        self.models = models
        self.mcache = {}
        self.dedupe_exit = True

    # ---- values
    def fld(self, v, variant, i):
        k = v[0] if isinstance(v, tuple) else None
        if k == 'A':
            if v[2] != variant:
                raise Infeasible()
            return v[3][i]
        if k == 'T' or k == 'V': return v[1][i]
        if k == 'F': return v[2][i]
        if k == '&': raise Undecided('field of a reference')
        if k == 'U':
            e = ('f', variant, i)
            rest = []
            for p, x in v[2]:
                if p[0] == e:
                    if len(p) == 1: return x
                    rest.append((p[1:], x))
            b = self.fld(v[1], variant, i)
            return ('U', b, tuple(rest)) if rest else b
        if k == 'S' or k == 'It' or k == 'ch' or k == 'fn' or k is None or k == 'lin':
            raise Undecided('field %s of %r' % ((variant, i), v))
        if k == 'dyn': return self.fld(v[1], variant, i)
        return ('f', v, variant, i)
    def setfld(self, v, variant, i, x):
        k = v[0] if isinstance(v, tuple) else None
        if k == 'A':
            if v[2] != variant: raise Infeasible()
            fs = list(v[3]); fs[i] = x
            return ('A', v[1], v[2], tuple(fs))
        if k == 'T' or k == 'V':
            fs = list(v[1]); fs[i] = x
            return (k, tuple(fs))
        if k == 'F':
            fs = list(v[2]); fs[i] = x
            return ('F', v[1], tuple(fs))
        if k == 'U':
            p0 = (('f', variant, i),)
            ov = [(p, y) for p, y in v[2] if p[0] != p0[0]]
            ov.append((p0, x))
            return ('U', v[1], tuple(sorted(ov, key=repr)))
        if is_sym(v):
            return ('U', v, (((('f', variant, i),), x),))
        raise Undecided('write to field of %r' % (v,))
    def index(self, st, v, i):
        if isinstance(v, tuple) and v[0] == 'V' and isinstance(i, int):
            if i < 0 or i >= len(v[1]): raise Infeasible()
            return v[1][i]
        return ('call', 'index', v, i)

    def step(self, st, v, e):
        if e[0] == 'f': return self.fld(v, e[1], e[2])
        if e[0] == 'ix': return self.index(st, v, e[1])
        if e[0] == 'c':
            if isinstance(v, tuple) and v[0] == 'V':
                n = len(v[1])
                j = n - e[1] if e[3] else e[1]
                if j < 0 or j >= n: raise Infeasible()
                return v[1][j]
            return ('call', 'index', v, e[1], e[3])
        if e[0] == 's':
            if isinstance(v, tuple) and v[0] == 'V':
                n = len(v[1]); to = n - e[2] if e[3] else e[2]
                return ('V', v[1][e[1]:to])
            raise Undecided('subslice')
        raise Undecided('projection %r' % (e,))

    def read_root(self, st, root):
        if root[0] == 'L':
            fr = st.frames[root[1]]
            if root[2] not in fr: raise Undecided('read of an uninitialised local _%d in %s' % (root[2], self.stack[-1] if self.stack else ''))
            return fr[root[2]]
        return st.heap[root[1]]
    def read_loc(self, st, root, path):
        v = self.read_root(st, root)
        for e in path:
            while isinstance(v, tuple) and v[0] == '&':   # reference stored inside, transparently followed
                v = self.read_loc(st, v[1], v[2])
            v = self.step(st, v, e)
        return v
    def write_loc(self, st, root, path, x):
        if not path:
            if root[0] == 'L': st.frames[root[1]][root[2]] = x
            else: st.heap[root[1]] = x
            return
        v0 = None
        if root[0] == 'L':
            v0 = st.frames[root[1]].get(root[2])
        else: v0 = st.heap[root[1]]
        if v0 is None:
            raise Undecided('partial write to an uninitialised local')
        nv = self.wr(st, v0, path, x)
        if nv is not v0: self.write_loc(st, root, (), nv)
    def wr(self, st, v, path, x):
        if isinstance(v, tuple) and v[0] == '&':
            self.write_loc(st, v[1], v[2] + path, x); return v
        if not path: return x
        e = path[0]
        if e[0] == 'f':
            if len(path) == 1:
                return self.setfld(v, e[1], e[2], x)
            sub = self.fld(v, e[1], e[2])
            n = self.wr(st, sub, path[1:], x)
            if n is sub: return v
            return self.setfld(v, e[1], e[2], n)
        if e[0] in ('ix', 'c') and isinstance(v, tuple) and v[0] == 'V':
            j = e[1]
            if e[0] == 'c' and e[3]: j = len(v[1]) - j
            if isinstance(j, int):
                fs = list(v[1])
                if j >= len(fs): raise Infeasible()
                fs[j] = self.wr(st, fs[j], path[1:], x) if len(path) > 1 else x
                return ('V', tuple(fs))
        raise Undecided('write through %r' % (e,))

    def loc(self, st, l, path):
        """resolve a place to (root, path)"""
        d = len(st.frames) - 1
        root = ('L', d, l); cur = ()
        for e in path:
            if e == '*':
                v = self.read_loc(st, root, cur)
                if isinstance(v, tuple) and v[0] == '&':
                    root, cur = v[1], v[2]
            elif e[0] == 'i':
                j = st.frames[d][e[1]]
                cur = cur + (('ix', j),)
            else:
                cur = cur + (e,)
        return root, cur
    def rdplace(self, st, l, path):
        if not path:
            fr = st.frames[-1]
            if l not in fr:
                raise Undecided('read of uninitialised _%d in %s' % (l, self.stack[-1] if self.stack else ''))
            return fr[l]
        root, cur = self.loc(st, l, path)
        return self.read_loc(st, root, cur)
    def const(self, st, c):
        k = c[0]
        if k == 'lit': return c[1]
        if k in ('prom', 'static'):
            v = self.mcache.get(c)
            if v is None:
                s2 = St()
                sv = self.exit_view; sn = self.enter_view; self.exit_view = self.enter_view = None
                outs = self.run(s2, c[1], [])
                self.exit_view = sv; self.enter_view = sn
                if len(outs) != 1: raise Undecided('constant %s' % c[1])
                v = outs[0][1]
                if isinstance(v, tuple) and v[0] == '&': v = ('x', 'static ' + c[1])
                self.mcache[c] = v
            return v
        if k == 'cagg':
            vals = tuple(self.const(st, x) for x in c[3])
            ty = c[1]
            if ty.startswith('('): return ('T', vals)
            if ty.startswith('['): return ('V', vals)
            return ('A', self.prog.adt_path(ty), c[2], vals)
        raise Undecided('constant %r' % (c,))
    def operand(self, st, o):
        if o[0] == 'k': return self.const(st, o[1])
        return self.rdplace(st, o[1], o[2])
    def deref(self, st, v):
        while isinstance(v, tuple) and v[0] == '&': v = self.read_loc(st, v[1], v[2])
        return v
    def deepderef(self, st, v):
        return self.deref(st, v)

    # ---- booleans
    def char1(self, st, a):
        """a character of the text, when it is known"""
        if isinstance(a, tuple) and a and a[0] == 'at':
            d = st.facts.get(a)
            if d and d[0] == 'in' and len(d[1]) == 1: return next(iter(d[1]))
        return a
    def simp_eq(self, st, a, b):
        a = self.deref(st, a); b = self.deref(st, b)
        if a == b and not isinstance(a, float): return True
        a = self.char1(st, a); b = self.char1(st, b)
        ta = isinstance(a, tuple); tb = isinstance(b, tuple)
        ka = a[0] if ta else None; kb = b[0] if tb else None
        if ka == 'dyn': return self.simp_eq(st, a[1], b)
        if not ta and not tb:
            return a == b
        if ka == 'ch' and kb == 'ch': return a == b
        for x, y in ((a, b), (b, a)):
            if type(y) is int and y == 0 and ka != 'A' and kb != 'A':
                p = no_text(x)
                if p: return ('b', 'empty', p)
        if ka == 'A' and kb == 'A':
            if a[2] != b[2]: return False
            r = True
            for x, y in zip(a[3], b[3]):
                q = self.simp_eq(st, x, y)
                if q is False: return False
                if q is not True: r = q if r is True else ('and', r, q)
            return r
        if ka in ('T', 'V') and kb in ('T', 'V'):
            if len(a[1]) != len(b[1]): return False
            r = True
            for x, y in zip(a[1], b[1]):
                q = self.simp_eq(st, x, y)
                if q is False: return False
                if q is not True: r = q if r is True else ('and', r, q)
            return r
        if kb == 'A' and ka != 'A': a, b, ka, kb = b, a, kb, ka
        if ka == 'A' and is_sym(b):
            d = self.discr_dom(st, b)
            dv = self.discr_of(a)
            if d is not None:
                if d[0] == 'in' and dv not in d[1]: return False
                if d[0] == '!' and dv in d[1]: return False
                if d[0] == 'in' and len(d[1]) == 1:
                    r = True
                    for i, x in enumerate(a[3]):
                        q = self.simp_eq(st, x, self.fld(b, a[2], i))
                        if q is False: return False
                        if q is not True: r = q if r is True else ('and', r, q)
                    return r
            return ('eq', b, a)
        # known scalar against term
        if (not ta or ka == 'ch') and (is_sym(b) or kb == 'S'): a, b, ta, tb, ka, kb = b, a, tb, ta, kb, ka
        if (is_sym(a) or ka == 'S') and (not tb or kb == 'ch'):
            if isinstance(b, bool): return a if b else lnot(a)
            d = st.facts.get(a)
            if d is not None:
                if d[0] == 'in':
                    if b not in d[1]: return False
                    if len(d[1]) == 1: return True
                elif b in d[1]: return False
            if ka == 'lin' or (isinstance(b, int) and ka != 'S'):
                # a - b == 0 both ways
                x = add(a, b, -1)
                if isinstance(x, int): return x == 0
                p = self.entails(st, x); q = self.entails(st, add(0, x, -1))
                if p and q: return True
                if self.entails(st, add(x, 1)) or self.entails(st, add(1, x, -1)): return False
            if ka == 'S' and b == '': return self.empty(a)
            if ka == 'S' and isinstance(b, str):
                n = sum(len(p) for p in a[1] if isinstance(p, str))
                if n > len(b): return False
                if isinstance(a[1][0], str) and not b.startswith(a[1][0]): return False
                if isinstance(a[1][-1], str) and not b.endswith(a[1][-1]): return False
            return ('eq', a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and (ka == 'lin' or kb == 'lin'):
            x = add(a, b, -1)
            if isinstance(x, int): return x == 0
        if repr(b) < repr(a): a, b = b, a
        return ('eq', a, b)

    def empty(self, v):
        import models
        return models.empty_term(v)
    def discr_of(self, v):
        if v[1] in (OPT, RES): return v[2]
        d = self.prog.discrs.get((v[1], v[2]))
        return v[2] if d is None else d
    def discr_dom(self, st, t):
        if isinstance(t, tuple) and t[0] == 'U':
            for p, x in t[2]:
                if p == ('d',): return ('in', frozenset([x]))
            return self.discr_dom(st, t[1])
        return st.facts.get(('d', t))

    def entails(self, st, x):
        """x <= 0 known?"""
        if isinstance(x, int): return x <= 0
        c, ts = lin(x)
        # unsigned terms are >= 0
        if c <= 0 and all(n <= 0 and self.nonneg(t) for t, n in ts.items()): return True
        key = tuple(sorted(ts.items(), key=repr))
        lows = []
        for t, d in st.facts.items():
            if t[0] == 'le0' and d == ('in', frozenset([True])):
                c2, t2 = lin(t[1])
                if t2 == ts and c <= c2: return True
                lows.append((c2, t2))
        for t, n in ts.items():          # small known domains
            d = st.facts.get(t)
            if d and d[0] == 'in' and all(isinstance(z, int) for z in d[1]):
                hi = max(n * z for z in d[1])
                r = dict(ts); del r[t]
                if self.entails(st, mklin(c + hi, r)): return True
        # one known fact plus non-negativity: x = f + rest with rest <= 0
        for c2, t2 in lows:
            r = dict(ts)
            for t, n in t2.items(): r[t] = r.get(t, 0) - n
            r = {t: n for t, n in r.items() if n}
            if c - c2 <= 0 and all(n <= 0 and self.nonneg(t) for t, n in r.items()): return True
        # two facts
        if len(lows) <= 24:
            for i, (c2, t2) in enumerate(lows):
                for c3, t3 in lows[i:]:
                    r = dict(ts)
                    for t, n in t2.items(): r[t] = r.get(t, 0) - n
                    for t, n in t3.items(): r[t] = r.get(t, 0) - n
                    r = {t: n for t, n in r.items() if n}
                    if c - c2 - c3 <= 0 and all(n <= 0 and self.nonneg(t) for t, n in r.items()): return True
        return False

    def eval_bool(self, st, t):
        """True/False when decided, else None"""
        if isinstance(t, bool): return t
        if isinstance(t, int): return bool(t)
        k = t[0]
        if k == 'not':
            r = self.eval_bool(st, t[1])
            return None if r is None else not r
        if k == 'le0':
            if self.entails(st, t[1]): return True
            n = lnot(t)
            if isinstance(n, bool): return not n
            if self.entails(st, n[1]): return False
            return None
        if k == 'and':
            a = self.eval_bool(st, t[1])
            if a is False: return False
            b = self.eval_bool(st, t[2])
            if b is False: return False
            return True if a and b else st.known(t)
        if k == 'or':
            a = self.eval_bool(st, t[1])
            if a is True: return True
            b = self.eval_bool(st, t[2])
            if b is True: return True
            return False if a is False and b is False else st.known(t)
        if k == 'eq':
            r = self.simp_eq(st, t[1], t[2])
            if isinstance(r, bool): return r
            if r != t: return self.eval_bool(st, r)
            v = st.known(t)
            return v
        if k == 'pred':           # ('pred', name, fn, term) over a finite domain
            d = st.facts.get(t[3])
            if d and d[0] == 'in':
                rs = set(bool(t[2](x)) for x in d[1])
                if len(rs) == 1: return rs.pop()
            return None
        return st.known(t)

    def assume(self, st, t, val):
        """restrict st (in place); False when infeasible"""
        r = self.eval_bool(st, t)
        if r is not None: return r == val
        k = t[0]
        if k == 'not': return self.assume(st, t[1], not val)
        if k == 'le0':
            n = t if val else lnot(t)
            if isinstance(n, bool): return n
            return st.restrict_in(n, [True])
        if k == 'and':
            if val: return self.assume(st, t[1], True) and self.assume(st, t[2], True)
            a = self.eval_bool(st, t[1])
            if a is True: return self.assume(st, t[2], False)
            b = self.eval_bool(st, t[2])
            if b is True: return self.assume(st, t[1], False)
            return st.restrict_in(t, [False])
        if k == 'or':
            if not val: return self.assume(st, t[1], False) and self.assume(st, t[2], False)
            a = self.eval_bool(st, t[1])
            if a is False: return self.assume(st, t[2], True)
            b = self.eval_bool(st, t[2])
            if b is False: return self.assume(st, t[1], True)
            return st.restrict_in(t, [True])
        if k == 'eq':
            t2 = self.simp_eq(st, t[1], t[2])
            if t2 != t: return self.assume(st, t2, val) if not isinstance(t2, bool) else t2 == val
            a, b = t[1], t[2]
            if isinstance(b, tuple) and b[0] == 'A':
                if val:
                    if not self.assume_discr(st, a, [self.discr_of(b)]): return False
                    for i, x in enumerate(b[3]):
                        if not self.assume(st, self.as_bool(self.simp_eq(st, self.fld(a, b[2], i), x)), True): return False
                    return True
                if not b[3]:
                    return self.assume_discr_out(st, a, [self.discr_of(b)])
                return st.restrict_in(t, [False])
            if not isinstance(b, tuple) or b[0] == 'ch':
                return st.restrict_in(a, [b]) if val else st.restrict_out(a, [b])
            return st.restrict_in(t, [val])
        if k == 'pred':
            d = st.facts.get(t[3])
            if d and d[0] == 'in':
                return st.restrict_in(t[3], [x for x in d[1] if bool(t[2](x)) == val])
            return True
        return st.restrict_in(t, [val])
    def as_bool(self, t): return t
    def assume_discr(self, st, t, vals):
        if isinstance(t, tuple) and t[0] == 'U':
            for p, x in t[2]:
                if p == ('d',): return x in vals
            t = t[1]
        return st.restrict_in(('d', t), vals)
    def assume_discr_out(self, st, t, vals):
        if isinstance(t, tuple) and t[0] == 'U':
            for p, x in t[2]:
                if p == ('d',): return x not in vals
            t = t[1]
        return st.restrict_out(('d', t), vals)

    def fork(self, st, t):
        """[(state, bool)] for a boolean term"""
        r = self.eval_bool(st, t)
        if r is not None: return [(st, r)]
        if t[0] == 'not':
            return [(s, not b) for s, b in self.fork(st, t[1])]
        out = self._fork(st, t)
        if t[0] in ('and', 'or', 'eq') and len(out) > 2:
            # keep the outcome of the whole test: it survives when the ways of reaching it are joined
            if St.reads is not None: St.reads.add(t)
            for s, b in out: s.facts[t] = ('in', frozenset([b]))
        return out
    def _fork(self, st, t):
        out = []
        if t[0] == 'and':
            for s, b in self.fork(st, t[1]):
                if not b: out.append((s, False))
                else: out += self.fork(s, t[2])
            return out
        if t[0] == 'or':
            for s, b in self.fork(st, t[1]):
                if b: out.append((s, True))
                else: out += self.fork(s, t[2])
            return out
        if t[0] == 'eq' and isinstance(t[2], tuple) and t[2][0] == 'A' and t[2][3]:
            # split on the discriminant first so that the negative side stays informative
            s0 = st.copy()
            if self.assume_discr(s0, t[1], [self.discr_of(t[2])]):
                q = self.simp_eq(s0, t[1], t[2])
                if isinstance(q, bool): out.append((s0, q))
                elif q == t: raise Undecided('eq does not reduce %r' % (t,))
                else: out += self.fork(s0, q)
            s1 = st.copy()
            if self.assume_discr_out(s1, t[1], [self.discr_of(t[2])]): out.append((s1, False))
            return out
        for b in (True, False):
            s = st.copy()
            if self.assume(s, t, b): out.append((s, b))
        return out

    # ---- rvalues
    def rvalue(self, st, q, ln):
        k = q[0]
        if k == 'use': return self.operand(st, q[1])
        if k == 'boxcopy':
            root, cur = self.loc(st, q[1][0], q[1][1])
            if root[0] == 'L' and root[1] == len(st.frames) - 1:
                v = self.read_loc(st, root, cur)
                return v if isinstance(v, tuple) and v[0] == '&' else ('&', root, cur)
            return ('&', root, cur)
        if k == 'ref':
            root, cur = self.loc(st, q[1][0], q[1][1])
            if q[2]:
                return ('&', root, cur)
            return self.read_loc(st, root, cur)
        if k == 'discr':
            v = self.deref(st, self.rdplace(st, q[1][0], q[1][1]))
            return self.discr(st, v)
        if k == 'agg':
            ops = tuple(self.operand(st, o) for o in q[4])
            kk = q[1]
            if kk == 'adt': return ('A', q[2], q[3], ops)
            if kk == 'tuple': return ('T', ops)
            if kk == 'array': return ('V', ops)
            if kk == 'closure': return ('F', q[2], ops)
            if kk == 'rawptr': return ops[0]
            raise Undecided('aggregate %s' % kk)
        if k == 'bin': return self.binop(st, q[1], self.operand(st, q[2]), self.operand(st, q[3]), q[4])
        if k == 'un':
            v = self.operand(st, q[2])
            if q[1] == 'Not':
                if isinstance(v, bool): return not v
                if isinstance(v, int): return ('call', 'bitnot', v)
                return lnot(v)
            if q[1] == 'Neg': return add(0, v, -1)
            if q[1] == 'PtrMetadata':
                v = self.deref(st, v)
                if isinstance(v, tuple) and v[0] == 'V': return len(v[1])
                return ('call', 'len', v)
            raise Undecided('unop ' + q[1])
        if k == 'cast':
            v = self.operand(st, q[2])
            kind = q[1]
            if kind == 'unsize':
                info = q[5]
                if info:
                    return ('dyn', v, tuple(sorted((m, tuple(kp)) for m, kp in info['m'].items())), info['self'])
                return v
            if kind == 'reify': return v
            if kind == 'closurefn': return v
            if kind == 'int':
                if isinstance(v, tuple) and v[0] == 'ch': return v[1]
                if q[4] == 'char' and isinstance(v, int): return ('ch', v)
                if isinstance(v, int) and not isinstance(v, bool):
                    return wrap(v, q[4])
                if isinstance(v, bool): return int(v)
                if q[3] in ('usize', 'u64', 'i64', 'isize', 'u32', 'i32') and q[4] in ('usize', 'u64', 'isize', 'i64', 'u32', 'i32'): return ('call', 'cast', v, q[4]) if q[4] != q[3] else v
                return ('call', 'cast', v, q[4])
            if kind in ('ptr', 'transmute'): return v
            raise Undecided('cast ' + kind)
        if k == 'rep':
            v = self.operand(st, q[1])
            if q[2] >= 0 and q[2] < 64: return ('V', (v,) * q[2])
            return ('call', 'repeat', v, q[2])
        raise Undecided('rvalue %s' % (q,))
    def discr(self, st, v):
        if isinstance(v, bool): return int(v)
        if isinstance(v, tuple):
            if v[0] == 'A': return self.discr_of(v)
            if v[0] == 'U':
                for p, x in v[2]:
                    if p == ('d',): return x
                return self.discr(st, v[1])
            if is_sym(v): return ('d', v)
        raise Undecided('discriminant of %r' % (v,))

    def binop(self, st, op, a, b, ty):
        if op.endswith('WithOverflow'):
            base = op[:-12]
            r = self.arith(base, a, b)
            if isinstance(r, int):
                return ('T', (wrap(r, ty), not inrange(r, ty)))
            if ty[0] == 'u':
                if base == 'Sub': fl = lt(a, b)
                else: fl = ('ovf', base, a, b)
            else: fl = ('ovf', base, a, b)
            return ('T', (r, fl))
        if op in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            return self.arith(op.replace('Unchecked', ''), a, b)
        if op in ('Eq', 'Ne'):
            r = self.simp_eq(st, a, b)
            return lnot(r) if op == 'Ne' else r
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            if isinstance(a, tuple) and a[0] == 'ch' and isinstance(b, tuple) and b[0] == 'ch':
                a, b = a[1], b[1]
            if ty == 'char' and not (isinstance(a, int) and isinstance(b, int)):
                # one side known: a predicate over the domain of the other
                flip = {'Lt': 'Gt', 'Le': 'Ge', 'Gt': 'Lt', 'Ge': 'Le'}
                if isinstance(a, tuple) and a[0] == 'ch': a, b, op = b, a, flip[op]
                if isinstance(b, tuple) and b[0] == 'ch':
                    return mkpred('ch%s%d' % (op, b[1]), CHCMP[op](b[1]), a)
                return ('call', 'chcmp', op, a, b)
            if isinstance(a, bool): a = int(a)
            if isinstance(b, bool): b = int(b)
            if op == 'Lt': return lt(a, b)
            if op == 'Le': return le(a, b)
            if op == 'Gt': return lt(b, a)
            return le(b, a)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if isinstance(a, bool) and isinstance(b, bool):
                return {'BitAnd': a and b, 'BitOr': a or b, 'BitXor': a != b}[op]
            if ty == 'bool':
                if op == 'BitAnd':
                    if a is True: return b
                    if b is True: return a
                    if a is False or b is False: return False
                    return ('and', a, b)
                if op == 'BitOr':
                    if a is False: return b
                    if b is False: return a
                    if a is True or b is True: return True
                    return ('or', a, b)
            if isinstance(a, int) and isinstance(b, int):
                return {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}[op]
            return ('call', op, a, b)
        if op in ('Div', 'Rem', 'Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
            if isinstance(a, int) and isinstance(b, int) and b != 0:
                return {'D': a // b, 'R': a % b}.get(op[0]) if op[0] != 'S' else (a << b if op[2] == 'l' else a >> b)
            return ('call', op, a, b)
        if op == 'Cmp':
            return ('call', 'cmp', a, b)
        raise Undecided('binop ' + op)
    def arith(self, op, a, b):
        if isinstance(a, bool): a = int(a)
        if isinstance(b, bool): b = int(b)
        if op == 'Add': return add(a, b)
        if op == 'Sub': return add(a, b, -1)
        return mul(a, b)

    # ---- execution
    def run(self, st, key, args):
        """execute function `key` on args; returns [(state, value)]"""
        f = self.prog.fn(key)
        if f is None: raise Undecided('no body for ' + key)
        self.visited.add(key)
        if LOG is not None: LOG.fns.add(key)
        if self.on_run:
            r = self.on_run(self, st, f, args)
            if r is not None: return r
        if self.opaque_ok and self.prog.pure_scalar(f):
            # a function that only reads and returns a scalar: if its loops cannot be followed, its result is unknown but nothing else is
            s0 = st.copy(); n = len(self.stack)
            try: return self.run_body(st, f, args)
            except LoopBound:
                del self.stack[n:]
                return [(s0, ('call', 'opq:' + key) + tuple(self.deref(s0, a) for a in args))]
        return self.run_body(st, f, args)

    def run_body(self, st, f, args):
        key = f.key
        cap = 24 if self.opaque_ok and self.prog.pure_scalar(f) else self.loopcap
        self.stack.append(key)
        if len(self.stack) > 120: raise Undecided('recursion too deep at ' + key)
        depth = len(st.frames)
        fr = {}
        if f.spread and f.closure is False and len(args) != f.argc:
            pass
        for i, a in enumerate(args): fr[i + 1] = a
        st.frames.append(fr)
        token = self.enter_view(self, st, f, args) if self.enter_view else None
        pend = {0: [st]}
        done = []
        if self.watch == key: self.watched = done      # kept for when the exploration is given up
        visits = {}
        seen = {}
        try:
            while pend:
                b = min(pend, key=lambda x: f.rpo[x])
                sts = pend.pop(b)
                live = f.live[b]; muts = f.muts
                if (len(sts) > 1 or b in visits) and not self.nomerge:
                    merged = {}
                    for s in sts:
                        fr = s.frames[-1]
                        for l in [l for l in fr if l not in live and l not in muts]: del fr[l]
                        k = (tuple(sorted(fr.items())), tuple(sorted(s.heap.items(), key=hk)),
                             tuple(tuple(sorted(g.items())) for g in s.frames[:-1])) if True else None
                        if self.exact: absorb(merged.setdefault(k, []), s); continue
                        o = merged.get(k)
                        if o is None: merged[k] = s
                        else: o.facts = join_facts(o.facts, s.facts)
                    sts = [s for l in merged.values() for s in l] if self.exact else list(merged.values())
                if self.canon: sts = self.canon(self, f, b, sts, seen)
                visits[b] = visits.get(b, 0) + 1
                if visits[b] > cap: raise LoopBound('loop bound in %s bb%d' % (key, b))
                for s in sts:
                    try:
                        self.block(s, f, b, pend, done, depth)
                    except Infeasible:
                        pass
        finally:
            self.stack.pop()
        outs = []
        for s, r in done:
            if self.canon: s.frames[-1] = {0: r}
            else: s.frames.pop()
            outs.append((s, r))
        if self.canon:
            fin = self.canon(self, f, None, [s for s, _ in outs], {}, True)
            return [(s, s.frames.pop()[0]) for s in fin]
        if self.exit_view:
            outs = self.exit_view(self, f, args, outs, token)
        elif len(outs) > 1 and not self.nomerge: outs = self.merge_outs(outs)
        return outs

    def merge_outs(self, outs):
        if len(outs) <= 1: return outs
        m = {}
        order = []
        if self.exact:
            for s, r in outs:
                k = (r, tuple(sorted(s.heap.items(), key=hk)), tuple(tuple(sorted(g.items())) for g in s.frames))
                if k not in m: m[k] = []; order.append((k, r))
                absorb(m[k], s)
            return [(s, r) for k, r in order for s in m[k]]
        for s, r in outs:
            k = (r, tuple(sorted(s.heap.items(), key=hk)), tuple(tuple(sorted(g.items())) for g in s.frames))
            o = m.get(k)
            if o is None: m[k] = s; order.append((k, r))
            else: o.facts = join_facts(o.facts, s.facts)
        return [(m[k], r) for k, r in order]

    def block(self, st, f, b, pend, done, depth):
        ss, t = f.bb[b]
        self.steps += len(ss) + 1
        if self.steps > self.budget: raise Undecided('step budget')
        fr = st.frames[-1]
        for s in ss:
            k = s[0]
            if k == '=':
                v = self.rvalue(st, s[2], s[3])
                d = s[1]
                if not d[1]: st.frames[-1][d[0]] = v
                else:
                    root, cur = self.loc(st, d[0], d[1])
                    self.write_loc(st, root, cur, v)
            elif k == 'dead':
                st.frames[-1].pop(s[1], None)
            elif k == 'sd':
                root, cur = self.loc(st, s[1][0], s[1][1])
                v = self.read_loc(st, root, cur)
                if isinstance(v, tuple) and v[0] == 'A':
                    self.write_loc(st, root, cur, ('A', v[1], s[2], v[3]))
                else: raise Undecided('set discriminant')
            else: raise Undecided('intrinsic')
        k = t[0]
        if k == 'goto':
            pend.setdefault(t[1], []).append(st)
        elif k == 'sw':
            self.switch(st, t, pend)
        elif k == 'ret':
            done.append((st, st.frames[-1].get(0, UNIT)))
        elif k == 'call':
            for s, v in self.call(st, f, t):
                if t[4] is None: continue
                if not t[3][1]: s.frames[-1][t[3][0]] = v
                else:
                    root, cur = self.loc(s, t[3][0], t[3][1])
                    self.write_loc(s, root, cur, v)
                pend.setdefault(t[4], []).append(s)
        elif k == 'assert':
            c = self.operand(st, t[1])
            if t[2] is False: c = lnot(c)
            r = self.eval_bool(st, c)
            self.note_assert(st, f, t, c, r)
            if r is False: return
            if r is None:
                if not self.assume(st, c, True): return
            pend.setdefault(t[4], []).append(st)
        elif k == 'unr': pass
        else: raise Undecided('terminator ' + str(t[1]))

    def note_assert(self, st, f, t, c, r):
        s = self.asserts.setdefault((f.key, t[5], t[3]), set())
        s.add(r)
        if LOG is not None:
            d = LOG.asserts.setdefault((f.key, t[5], t[3]), {})
            if r is True: d['ok'] = 1
            elif r is False: d['fails'] = tuple(self.stack)
            elif len(d) < 12:
                q = c[1] if c[0] == 'not' else c
                d.setdefault(('ovf',) if q[0] == 'ovf' else self.open_cond(st, c), 1)
        if r is False: self.panic(st, f.key, t[5], t[3], c)
    def open_cond(self, st, c):
        """sorts an assertion the facts do not settle: ('holds',), ('fails', expr) when only positions of the text decide and they can make it fail, or ('open', c)"""
        q = c[1] if c[0] == 'not' else c
        if q[0] != 'le0': return ('open', c)
        e = add(0, q[1], -1)
        # c is `not (a < b)`, kept as le0(b - a); the difference a - b is e
        if c[0] == 'not': return ('open', c)
        k, ts = lin(e)
        if ts and self.eval_bool(st, self.simp_eq(st, add(e, 1), 0)) is False and self.eval_bool(st, le0(mul(add(e, 1), -1))) is True: return ('holds',)
        pos = {}
        for t, n in ts.items():
            if t[0] == 'x' and re.fullmatch(r'[LR]\d+', str(t[1])): pos[2 * int(t[1][1:]) + (t[1][0] == 'R')] = n; continue
            pos = None; break
        if pos is None:
            if len(ts) == 2 and k >= 0:
                (t1, n1), (t2, n2) = sorted(ts.items(), key=lambda x: -x[1])
                if n1 == 1 and n2 == -1 and t1[0] == t2[0] == 'f' and t1[1] == t2[1] and (t1[3], t2[3]) == (1, 0): return ('span', t1[1][2:] if t1[1][0] == 'f' else t1[1])
            return ('open', c)
        # positions grow along the text: write the sum with the steps between them
        acc = 0; low = True
        for p in sorted(pos, reverse=True):
            acc += pos[p]
            if acc < 0: low = False
        if low and k >= 0: return ('holds',)
        if any(set(pos) & {2 * int(y[1][1:]) + (y[1][0] == 'R') for y in terms_of(f) if re.fullmatch(r'[LR]\d+', str(y[1]))} for f in st.facts): return ('open', c)
        return ('fails', e)
    def undet(self, line, what):
        if LOG is not None and self.stack: LOG.open.add((self.stack[-1], line, what))
    def panic(self, st, key, line, kind, detail=None):
        if self.on_panic: self.on_panic(st, key, line, kind, detail)
        if LOG is not None: LOG.panics.add((key, line, kind, tuple(self.stack)))
        if len(self.panics) < 2000: self.panics.append((key, line, kind, detail, tuple(self.stack)))

    def switch(self, st, t, pend):
        v = self.operand(st, t[1])
        if isinstance(v, tuple) and v[0] == 'ch': v = v[1]
        if isinstance(v, bool): v = int(v)
        if isinstance(v, int):
            for n, bb in t[2]:
                if n == v:
                    pend.setdefault(bb, []).append(st); return
            pend.setdefault(t[3], []).append(st); return
        if t[4] == 'bool':
            tgt = {}
            for n, bb in t[2]: tgt[bool(n)] = bb
            for s, b in self.fork(st, v):
                pend.setdefault(tgt.get(b, t[3]), []).append(s)
            return
        if v[0] == 'call' and v[1] == 'cast':
            pass
        isch = t[4] == 'char'
        rest = []
        for n, bb in t[2]:
            key = ('ch', n) if isch else n
            s = st.copy()
            if self.assume_switch(s, v, key): pend.setdefault(bb, []).append(s)
            rest.append(key)
        s = st
        if s.restrict_out(v, rest):
            # the otherwise edge of an exhausted enum is unreachable
            d = s.facts.get(v)
            if d[0] == '!' and v[0] == 'd':
                n = self.enum_size(v[1], t)
                if n is not None and len(d[1]) >= n: return
            pend.setdefault(t[3], []).append(s)
    def assume_switch(self, s, v, key):
        if isinstance(key, int) and v[0] not in ('d',):
            r = self.simp_eq(s, v, key)
            if r is False: return False
        return s.restrict_in(v, [key])
    def enum_size(self, term, t): return None

    # ---- calls
    def call(self, st, f, t):
        _, cc, aops, dest, target, line, dty = t
        args = [self.operand(st, a) for a in aops]
        if self.canon and target is not None and cc[0] != 'ind':
            live = f.live[target]; fr = st.frames[-1]
            for l in [l for l in fr if l not in live and l not in f.muts]: del fr[l]
        if cc[0] == 'ind':
            fv = self.deref(st, self.operand(st, cc[1]))
            return self.call_value(st, fv, args, dty, line)
        return self.call_callee(st, cc[1], args, dty, line, target is None)

    def call_value(self, st, fv, args, dty='?', line=0):
        """call a function value (closure, fn item, dyn Fn) with untupled args"""
        fv = self.deref(st, fv)
        if isinstance(fv, tuple):
            if fv[0] == 'F':
                fn = self.prog.fn(fv[1])
                if fn is None: raise Undecided('closure ' + fv[1])
                a = [fv] + list(args)
                if fn.argc != len(a):
                    if fn.argc == len(args): a = list(args)
                    else: a = [fv, ('T', tuple(args))]
                return self.run(st, fv[1], a)
            if fv[0] == 'fn': return self.call_callee(st, fv[1], list(args), dty, line)
            if fv[0] == 'dyn': return self.call_value(st, fv[1], args, dty, line)
            if is_sym(fv):
                return [(st, ('call', 'indirect', fv) + tuple(self.deref(st, a) for a in args))]
        raise Undecided('call of %r' % (fv,))

    def call_callee(self, st, c, args, dty='?', line=0, diverges=False):
        self.callsites += 1
        if LOG is not None and self.stack: LOG.sites.add((self.stack[-1], line, c.r or c.p))
        if c.ctor:
            path = self.prog.adt_path(c.ctor[0])
            return [(st, ('A', path, c.ctor[1], tuple(args)))]
        if c.virt:
            recv = self.deref(st, args[0])
            name = (c.vpath or c.r).rsplit('::', 1)[-1]
            if isinstance(recv, tuple) and recv[0] == 'dyn':
                for m, kp in recv[2]:
                    if m == name:
                        key, path = kp
                        h = self.hooks.get(path) or self.hooks.get(key)
                        a2 = [recv[1]] + args[1:]
                        if name in ('call', 'call_mut', 'call_once') and recv[1][0] in ('F', 'fn'):
                            tup = self.deref(st, args[1])
                            return self.call_value(st, recv[1], list(tup[1]), dty, line)
                        if h:
                            r = h(self, st, Callee.get(path, path, key, (), False, None, None), a2, line)
                            if r is not NotImplemented: return r
                        return self.run(st, key, a2)
            if isinstance(recv, tuple) and recv[0] == 'dyn' and name in ('call', 'call_mut', 'call_once') and recv[1][0] in ('F', 'fn'):
                tup = self.deref(st, args[1])
                if isinstance(tup, tuple) and tup[0] == 'T': return self.call_value(st, recv[1], list(tup[1]), dty, line)
            h = self.hooks.get('virt:' + name)
            if h:
                r = h(self, st, c, args, line)
                if r is not NotImplemented: return r
            if is_sym(recv):
                return [(st, ('call', 'virt ' + name, recv) + tuple(self.deref(st, a) for a in args[1:]))]
            raise Undecided('virtual call %s on %r' % (name, recv))
        for k in (c.key, c.r, c.p):
            h = self.hooks.get(k)
            if h:
                r = h(self, st, c, args, line)
                if r is not NotImplemented: return r
        m = self.models.lookup(c)
        if m:
            r = m(self, st, c, args, line)
            if r is not NotImplemented: return r
        if c.key and c.key in self.prog.raw:
            fn = self.prog.fn(c.key)
            if fn.closure and len(args) == 2:
                tup = self.deref(st, args[1])
                if isinstance(tup, tuple) and tup and tup[0] == 'T': args = [args[0]] + list(tup[1])
            return self.run(st, c.key, args)
        if diverges:
            self.panic(st, self.stack[-1] if self.stack else '?', line, 'call ' + (c.r or ''), tuple(args))
            return []
        name = c.r or c.p or '?'
        if any(isinstance(a, tuple) and a[0] == '&' for a in args) and not self.havoc_ok:
            self.unmodelled[name] = self.unmodelled.get(name, 0) + 1
            raise Undecided('no model for ' + name)
        self.unmodelled[name] = self.unmodelled.get(name, 0) + 1
        return [(st, ('call', name) + tuple(self.deref(st, a) for a in args))]

def hk(kv): return repr(kv[0])

class _P:
    c = {}
def mkpred(name, fn, term):
    fn = _P.c.setdefault(name, fn)
    if isinstance(term, tuple) and term[0] == 'ch': return bool(fn(term))
    return ('pred', name, fn, term)
CHCMP = {
    'Lt': lambda n: (lambda x: x[1] < n), 'Le': lambda n: (lambda x: x[1] <= n),
    'Gt': lambda n: (lambda x: x[1] > n), 'Ge': lambda n: (lambda x: x[1] >= n),
}
BITS = {'usize': 64, 'u64': 64, 'u32': 32, 'u16': 16, 'u8': 8, 'isize': 64, 'i64': 64, 'i32': 32, 'i16': 16, 'i8': 8, 'u128': 128, 'i128': 128}
def inrange(v, ty):
    n = BITS.get(ty)
    if n is None: return True
    if ty[0] == 'u': return 0 <= v < (1 << n)
    return -(1 << (n - 1)) <= v < (1 << (n - 1))
def wrap(v, ty):
    n = BITS.get(ty)
    if n is None: return v
    v &= (1 << n) - 1
    if ty[0] == 'i' and v >> (n - 1): v -= 1 << n
    return v
