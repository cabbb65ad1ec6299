"""Exact exploration of code that reads a text character by character.

The text is unknown: the character at position p is the term ('at', p), whose facts are the set of characters it may be (every ASCII character,
end of input, and representatives of the non-ASCII ones), narrowed by the tests the code makes.  Positions are anchors plus offsets; when the
current position moves far from an anchor a new anchor is introduced, so that the loops reach a fixpoint for texts of any length.
A reference automaton reads the same characters in step with the analysed code.
"""
import ai, models
from ai import *
EOF = ('ch', -1)
NONASCII = [0xe9, 0x416, 0x4e2d, 0xa0, 0x2028, 0x0663, 0x2014, 0x1f600]      # letters, blank, line separator, digit, punctuation, beyond the BMP
W = 8       # how far back a bracket and its equals signs are remembered
SKIP = {('s', 'wit'), ('s', 'n')}      # not part of the state

def anchors(v, out):
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 'p' and isinstance(v[1], int): out.add(v); return
        for x in v:
            if isinstance(x, tuple): anchors(x, out)
def offsets(v, out, seen):
    """the offsets used with each anchor"""
    if isinstance(v, tuple):
        if v in seen: return
        seen.add(v)
        p = position(v) if v and v[0] in ('p', 'lin') else None
        if p: out.setdefault(p[0], set()).add(p[1]); return
        if v and v[0] == 'lin':
            for t, _ in v[2]:
                if t[0] == 'p': out.setdefault(t, set())
                else: offsets(t, out, seen)
            return
        for x in v:
            if isinstance(x, tuple): offsets(x, out, seen)
def position(t):
    """(anchor, offset) of a position term"""
    if isinstance(t, tuple):
        if t[0] == 'p' and isinstance(t[1], int): return t, 0
        if t[0] == 'lin' and len(t[2]) == 1 and t[2][0][1] == 1 and t[2][0][0][0] == 'p': return t[2][0][0], t[1]
    return None
def subst(v, fpos, fanch, memo):
    """rewrite position terms by fpos and remaining anchors by fanch"""
    if not isinstance(v, tuple): return v
    r = memo.get(v)
    if r is not None: return r
    p = position(v) if v and v[0] in ('p', 'lin') else None
    if p: r = fpos(p)
    elif v and v[0] == 'lin':
        r = v[1]
        for t, n in v[2]: r = add(r, mul(subst(t, lambda q: fanch(q[0]), fanch, {}) if t[0] == 'p' else subst(t, fpos, fanch, memo), n))
    else: r = tuple(subst(x, fpos, fanch, memo) if isinstance(x, tuple) else x for x in v)
    memo[v] = r
    return r

class Stream:
    """hooks and canonical forms for one Interp"""
    def __init__(self, prog, ref, start, lits=(), prefix=7, win=5):
        """ref: object with step(state, ch) -> new state, or None to give the path up"""
        self.prog = prog; self.ref = ref
        self.alpha = frozenset([('ch', i) for i in range(128)] + [('ch', i) for i in NONASCII] + [('ch', i) for i in lits] + [EOF])
        self.I = I = Interp(prog, {}, 60000000)
        I.nomerge = True; I.opaque_ok = False; I.canon = self.canon; I.loopcap = 100000
        I.hooks.update({'model:next': self.next, 'model:peek': self.peek, 'model:count': self.count,
                        'core::str::<impl str>::chars': self.chars, 'model:adapt': self.adapt,
                        'core::iter::adapters::peekable::Peekable::<I>::next_if': self.next_if,
                        'core::iter::adapters::peekable::Peekable::<I>::next_if_eq': self.next_if_eq})
        self.progress = set(); self.over = {}; self.states = 0; self.cap = 80000; I.watch = None; self.notes = set()
        self.start = start; self.win = win; self.prefix = prefix       # offsets from the first anchor that are kept exactly
    # ---- the text
    def chars(self, I, st, c, a, ln):
        v = I.deref(st, a[0])
        if v == ('x', 'input'): return [(st, ('It', 'stream', ('p', 0), ()))]
        return NotImplemented
    def adapt(self, I, st, nm, it, arg):
        if it[1] == 'stream':
            if nm == 'enumerate': return [(st, ('It', 'stream', it[2], it[3] + ('e',)))]
            if nm in ('peekable', 'by_ref'): return [(st, it)]
        return None
    def dom(self, st, p):
        t = ('at', p)
        if t not in st.facts: st.facts[t] = ('in', self.alpha)
        return t
    def item(self, it, t): return ('T', (it[2], t)) if it[3] else t
    def look(self, st, it):
        """[(state, at end?)]"""
        t = self.dom(st, it[2])
        out = []
        d = st.facts[t][1]
        if EOF in d:
            s = st.copy() if len(d) > 1 else st
            s.facts[t] = ('in', frozenset([EOF])); out.append((s, True))
        if len(d) > (EOF in d):
            st.facts[t] = ('in', d - {EOF}); out.append((st, False))
        return out
    def peek(self, I, st, ref, it, ln):
        if it[1] != 'stream': return None
        t = ('at', it[2])
        return [(s, none() if e else some(self.item(it, t))) for s, e in self.look(st, it)]
    def next(self, I, st, ref, it, ln):
        if it[1] == 'op' and any(x == 'stream' for x in walk(it)): raise Undecided('an adapter over the text: %s' % it[2])
        if it[1] != 'stream': return None
        out = []
        for s, e in self.look(st, it):
            if e: out.append((s, none())); continue
            out += [(s2, some(self.item(it, ('at', it[2])))) for s2 in self.consume(I, s, ref, it)]
        return out
    def consume(self, I, st, ref, it):
        p = it[2]; t = ('at', p)
        models.upd(I, st, ref, ('It', 'stream', add(p, 1), it[3]))
        h = st.heap
        if h[('s', 'c')] != p: return [st]            # a second reader of the same text
        h[('s', 'c')] = add(p, 1); h[('s', 'n')] += 1
        d = st.facts[t][1]
        # the reference reads the character
        part = {}
        for ch in d: part.setdefault(self.ref.step(h[('s', 'ref')], ch[1]), []).append(ch)
        out = []
        for n, (q, cs) in enumerate(sorted(part.items(), key=repr)):
            if q is None: continue
            if q == ('over',):
                self.over.setdefault(h[('s', 'ref')], (h[('s', 'wit')] + show(cs), show(cs))); continue
            s = st.copy()
            s.facts[t] = ('in', frozenset(cs))
            w = s.heap[('s', 'wit')]
            s.heap[('s', 'wit')] = (w + show(cs)) if len(w) < 60 else w
            if q[0] == 'token' : q = q[1]; s.heap[('s', 'ts')] = p
            s.heap[('s', 'ref')] = q
            if q[0] == 'ws': s.heap[('s', 'ts')] = None
            out.append(s)
        return out
    def next_if(self, I, st, c, a, ln):
        it = models.it_of(I, st, a[0])
        if it[1] != 'stream': return NotImplemented
        out = []
        for s, e in self.look(st, it):
            if e: out.append((s, none())); continue
            for s2, v in I.call_value(s, a[1], [self.item(it, ('at', it[2]))]):
                for s3, b in I.fork(s2, v):
                    if b: out += [(s4, some(self.item(it, ('at', it[2])))) for s4 in self.consume(I, s3, a[0], it)]
                    else: out.append((s3, none()))
        return out
    def next_if_eq(self, I, st, c, a, ln):
        it = models.it_of(I, st, a[0])
        if it[1] != 'stream': return NotImplemented
        out = []
        for s, e in self.look(st, it):
            if e: out.append((s, none())); continue
            x = self.item(it, ('at', it[2]))
            for s3, b in I.fork(s, I.simp_eq(s, x, I.deref(s, a[1]))):
                if b: out += [(s4, some(x)) for s4 in self.consume(I, s3, a[0], it)]
                else: out.append((s3, none()))
        return out
    def count(self, I, st, c, a, it, ln):
        if it[1] != 'stream': return None
        if it[2] != ('p', 0) and it[2] != ('origin',): return None
        return [(st, ('len',))]
    # ---- canonical forms
    def tail(self, st):
        """the characters read last, as far as they are a bracket followed by equals signs"""
        p = st.heap[('s', 'c')]; out = ''
        for i in range(1, W):
            d = st.facts.get(('at', add(p, -i)))
            if not d or d[0] != 'in' or len(d[1]) != 1: break
            x = next(iter(d[1]))[1]
            if x < 0 or chr(x) not in '[]=': break
            out = chr(x) + out
            if chr(x) != '=': break
        return out
    def absorb(self, st, ps):
        """join literal pieces to the slices of the text they repeat"""
        def char(p):
            d = st.facts.get(('at', p))
            if d and d[0] == 'in' and len(d[1]) == 1: return next(iter(d[1]))[1]
            return None
        def lit(s, p):            # does the text at p start with s?
            return all(char(add(p, i)) == ord(x) for i, x in enumerate(s))
        # pieces that repeat the text just read
        h = st.heap; pos = h[('s', 'c')]; ps = list(ps); j = len(ps)
        while j:
            x = ps[j - 1]
            if not isinstance(x, str): break
            q = add(pos, -len(x))
            if not lit(x, q): break
            pos = q; j -= 1
        if j < len(ps): ps = ps[:j] + [('sl', pos, h[('s', 'c')])]
        out = []
        for x in ps:
            if not isinstance(x, str) and x[0] == 'c' and isinstance(x[1], tuple) and x[1][0] == 'at': x = ('sl', x[1][1], add(x[1][1], 1))
            if not isinstance(x, str) and x[0] == 'rep' and len(x[1]) == 1 and isinstance(x[1][0], str):
                if isinstance(x[2], int): x = x[1][0] * x[2]
            if out:
                y = out[-1]
                ys = not isinstance(y, str) and y[0] == 'sl'; xs = not isinstance(x, str) and x[0] == 'sl'
                if ys and xs and y[2] == x[1]: out[-1] = ('sl', y[1], x[2]); continue
                if ys and isinstance(x, str) and lit(x, y[2]): out[-1] = ('sl', y[1], add(y[2], len(x))); continue
                if isinstance(y, str) and xs and lit(y, add(x[1], -len(y))): out[-1] = ('sl', add(x[1], -len(y)), x[2]); continue
                if isinstance(y, str) and isinstance(x, str): out[-1] = y + x; continue
            out.append(x)
        return tuple(out)
    def strings(self, st, v, memo):
        if not isinstance(v, tuple):
            if self.athead and isinstance(v, str) and 0 < len(v) < W and all(x in ']=[' for x in v):
                ps = self.absorb(st, (v,))
                return v if isinstance(ps[0], str) else ('S', ps)
            return v
        r = memo.get(v)
        if r is None:
            if v and v[0] == 'S':
                ps = self.absorb(st, v[1])
                if self.athead and len(ps) > 1 and (len(ps) > 2 or sum(isinstance(x, str) and len(x) < W for x in ps) != 1): ps = (('t', ('x', 'mixed-text')),)      # no slice of the source: what exactly does not matter
                r = mkS(ps) if len(ps) != 1 or isinstance(ps[0], str) else ('S', ps)
            else: r = tuple(self.strings(st, x, memo) if isinstance(x, tuple) or isinstance(x, str) and v[0] != 'rep' else x for x in v)
            memo[v] = r
        return r
    def everywhere(self, st, f, own=True):
        for fr in st.frames:
            for k in fr: fr[k] = f(fr[k])
        for k in st.heap:
            if k not in SKIP and k[0] != 'lh' and (own or k[0] != 's'): st.heap[k] = f(st.heap[k])
    def normal(self, st):
        h = st.heap
        memo = {}
        self.everywhere(st, lambda v: self.strings(st, v, memo), False)
        c = h[('s', 'c')]
        a, k = position(c)
        order = list(h[('s', 'order')])
        facts = st.facts
        t = self.tail(st)
        w = k - (self.win + len(t) if t else 2)
        if a != order[0] or w > self.prefix:
            n = ('p', max(x[1] for x in order) + 1)
            def fpos(q):
                if q[0] == a and q[1] >= w: return add(n, q[1] - w)
                return add(q[0], q[1])
            m2 = {}
            self.everywhere(st, lambda v: subst(v, fpos, lambda x: x, m2))
            facts = {}
            for t, d in st.facts.items(): facts[subst(t, fpos, lambda x: x, m2)] = d
            order.insert(order.index(a) + 1, n)
        # live anchors and the positions of each
        live = {}; m5 = set()
        for fr in st.frames:
            for v in fr.values(): offsets(v, live, m5)
        for kk, v in h.items():
            if kk not in SKIP and kk != ('s', 'order') and kk[0] != 'lh': offsets(v, live, m5)
        order = [x for x in order if x in live]
        ren = {}; top = []
        last = position(h[('s', 'c')])[0]
        for i, x in enumerate(order):
            o = live[x]
            lo = min(o) if o and (x != last or h[('s', 'ts')] is None) else 0
            ren[x] = add(('p', i), -lo)
            top.append((('p', i), max(o) - lo if o else 0))
        if any(x != y for x, y in ren.items()):
            m3 = {}
            fa = lambda x: ren.get(x, ('gone', x))
            fp = lambda q: add(fa(q[0]), q[1])
            self.everywhere(st, lambda v: subst(v, fp, fa, m3))
            facts = {subst(t, fp, fa, m3): d for t, d in facts.items()}
        order = [x for x, _ in top]
        h[('s', 'order')] = tuple(order)
        st.facts = facts
        # facts: characters near the ends and those that are referred to, and the distances
        c = h[('s', 'c')]
        used = set()
        def note(v):
            if isinstance(v, tuple):
                if v and v[0] == 'at': used.add(v)
                for x in v:
                    if isinstance(x, tuple): note(x)
        for fr in st.frames:
            for v in fr.values(): note(v)
        for kk, v in h.items():
            if kk[0] != 's': note(v)
        keep = {}
        ts = h[('s', 'ts')]
        near = set(add(c, i) for i in (0, -1))
        if ts is not None:
            near |= set(add(ts, i) for i in (0, 1, 2))
            for i in range(2, W + 2):          # an opening bracket and its equals signs
                d = facts.get(('at', add(ts, i)))
                if not d or d[0] != 'in' or len(d[1]) != 1 or next(iter(d[1]))[1] not in (61, 91): break
                near.add(add(ts, i))
        near |= set(add(c, -i) for i in range(1, len(self.tail(st)) + 1))
        for t, d in facts.items():
            if t[0] == 'at':
                if t in used or t[1] in near: keep[t] = d
            elif not any(x[0] in ('gone',) or x[0] == 'p' and isinstance(x[1], int) for x in walk(t) if isinstance(x, tuple) and x):
                keep[t] = d
        for i in range(len(order) - 1):
            keep[le0(add(top[i][1] + 1, add(order[i], order[i + 1], -1)))] = ('in', frozenset([True]))
        st.facts = keep
        return st
    def key(self, st):
        return (self.tail(st), tuple(tuple(sorted(g.items())) for g in st.frames), tuple(sorted(((k, v) for k, v in st.heap.items() if k not in SKIP and k[0] != 'lh'), key=hk)),
                frozenset(x for x in st.facts.items() if x[0][0] != 'at'))
    def merge(self, st, k, seen):
        """False when everything st stands for has been followed; otherwise st is widened by what it is joined with"""
        o = seen.get(k)
        ats = {t: d[1] for t, d in st.facts.items() if t[0] == 'at'}
        if o is not None:
            new = {t: o[t] | ats[t] for t in o if t in ats}
            if new == o: return False
            ats = new
            for t in [t for t in st.facts if t[0] == 'at' and t not in ats]: del st.facts[t]
            for t, d in ats.items(): st.facts[t] = ('in', d)
        seen[k] = ats
        return True
    def canon(self, I, f, b, sts, seen, exit=False):
        if sts and ('s', 'c') not in sts[0].heap: return sts
        head = b is None or b in f.heads
        if not head:
            if len(sts) < 2: return sts
            seen = {}
        out = []
        for s in sts:
            if b is not None:
                live = f.live[b]; muts = f.muts
                fr = s.frames[-1]
                for l in [l for l in fr if l not in live and l not in muts]: del fr[l]
                lh = ('lh', len(s.frames), b)
                if not head: lh = None
                now = hash((s.heap[('s', 'n')], tuple(sorted((k, v) for k, v in fr.items()))))
                if lh and s.heap.get(lh) == now:      # a turn of the loop that changed nothing: it would go on for ever
                    self.progress.add((f.key, b, s.heap[('s', 'wit')])); continue
                if lh: s.heap[lh] = now
            else:
                for k in [k for k in s.heap if k[0] == 'lh' and k[1] > len(s.frames)]: del s.heap[k]
            self.athead = head and b is not None
            self.normal(s)
            k = (b, self.key(s))
            if not head and k in seen:
                ats = seen[k]
                o = ats.facts
                for t in [t for t in o if t[0] == 'at']:
                    if t in s.facts: o[t] = ('in', o[t][1] | s.facts[t][1])
                    else: del o[t]
                continue
            if not head: seen[k] = s; out.append(s); continue
            if not self.merge(s, k, seen): continue
            self.states += 1
            if self.states > self.cap: raise Undecided('too many states while reading the text')
            out.append(s)
        return out
    def initial(self):
        st = St()
        st.heap.update({('s', 'c'): ('p', 0), ('s', 'ref'): self.start, ('s', 'wit'): '', ('s', 'n'): 0, ('s', 'order'): (('p', 0),), ('s', 'ts'): None})
        return st

def walk(v):
    yield v
    if isinstance(v, tuple):
        for x in v: yield from walk(x)
def show(cs):
    cs = sorted(cs)
    for pref in 'a1 =':
        if ('ch', ord(pref)) in cs: return pref
    for x in cs:
        if x[1] > 32: return chr(x[1])
    x = cs[0][1]
    return chr(x)
