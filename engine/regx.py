"""Regular languages as minimal DFAs over a finite set of character classes: enough to compare the patterns the program matches options with."""
class Unsupported(Exception): pass
import functools
# one representative per kind of character: all of ASCII, then a letter, a digit, a blank and a symbol outside ASCII
CH = [chr(i) for i in range(128)] + ['\u00e9', '\u0663', '\u2003', '\u20ac']
N = len(CH)
AT = 1000                      # assertions between two characters: word boundary, none, start, end
ASSERT = {'b': AT, 'B': AT + 1, 'A': AT + 2, 'z': AT + 3}
MARK = 8                      # group marks: N + 2*i open, N + 2*i + 1 close
ALL = frozenset(range(N))
def cls(f): return frozenset(i for i in range(N) if f(CH[i]))
NL = cls(lambda c: c == '\n')
ESC = {'d': cls(str.isdigit), 'w': cls(lambda c: c.isalnum() or c == '_'), 's': cls(str.isspace)}
CTRL = {'n': '\n', 't': '\t', 'r': '\r', 'f': '\f', 'v': '\v'}
def one(ch):
    if ch in CH: return frozenset([CH.index(ch)])
    raise Unsupported('character %r' % ch)

class P:
    def __init__(s, t): s.t = t; s.i = 0; s.g = 0; s.dotall = False
    def peek(s): return s.t[s.i] if s.i < len(s.t) else None
    def next(s): c = s.t[s.i]; s.i += 1; return c
    def alt(s):
        a = [s.seq()]
        while s.peek() == '|': s.next(); a.append(s.seq())
        return a[0] if len(a) == 1 else ('alt', a)
    def seq(s):
        r = []
        while s.peek() not in (None, '|', ')'):
            a = s.atom()
            while s.peek() in ('*', '+', '?', '{') and s.peek() is not None:
                c = s.peek()
                if c == '{':
                    j = s.t.index('}', s.i); body = s.t[s.i + 1:j]; s.i = j + 1
                    lo, _, hi = body.partition(',')
                    a = ('rep', a, int(lo), (int(hi) if hi else None) if ',' in body else int(lo))
                else:
                    s.next(); a = ('rep', a, 1 if c == '+' else 0, 1 if c == '?' else None)
                if s.peek() == '?': s.next()       # laziness does not change the language
            r.append(a)
        return ('seq', r)
    def atom(s):
        c = s.next()
        if c == '(':
            cap = True
            if s.peek() == '?':
                s.next()
                d = s.next()
                if d == ':': cap = False
                elif d in ('P', '<'):
                    if d == 'P': s.next()
                    while s.next() != '>': pass
                elif d == 's' and s.peek() == ')': s.next(); s.dotall = True; return ('seq', [])
                else: raise Unsupported('group (?%s' % d)
            if cap: s.g += 1; n = s.g
            a = s.alt()
            if s.next() != ')': raise Unsupported('group')
            return ('grp', n, a) if cap else a
        if c == '[': return ('set', s.klass())
        if c == '.': return ('set', ALL if s.dotall else ALL - NL)
        if c == '^': return ('bol',)
        if c == '$': return ('eol',)
        if c == '\\':
            if s.peek() in ASSERT: return ('assert', ASSERT[s.next()])
            return ('set', s.esc())
        return ('set', one(c))
    def esc(s):
        c = s.next()
        if c in ESC: return ESC[c]
        if c.lower() in ESC: return ALL - ESC[c.lower()]
        if c in CTRL: return one(CTRL[c])
        if c.isalnum(): raise Unsupported('\\' + c)
        return one(c)
    def klass(s):
        neg = False
        if s.peek() == '^': s.next(); neg = True
        r = set(); first = True
        while True:
            c = s.next()
            if c == ']' and not first: break
            first = False
            if c == '[':
                if s.peek() == ':': raise Unsupported('posix class')
                raise Unsupported('nested class')
            if c == '\\':
                x = s.esc()
                if len(x) > 1: r |= x; continue
                c = CH[next(iter(x))]
            if s.peek() == '-' and s.t[s.i + 1] != ']':
                s.next(); d = s.next()
                if d == '\\': d = CH[next(iter(s.esc()))]
                r |= cls(lambda k: c <= k <= d)
            else: r |= one(c)
        return ALL - r if neg else frozenset(r)

class NFA:
    def __init__(s): s.eps = []; s.tr = []; s.asserts = False
    def new(s): s.eps.append([]); s.tr.append([]); return len(s.eps) - 1
    def build(s, a, i, marks):
        """state reached from i by a"""
        k = a[0]
        if k == 'set': j = s.new(); s.tr[i].append((a[1], j)); return j
        if k in ('assert', 'bol', 'eol'):
            s.asserts = True; j = s.new(); s.tr[i].append((frozenset([{'bol': AT + 2, 'eol': AT + 3}.get(k) or a[1]]), j)); return j
        if k == 'seq':
            for x in a[1]: i = s.build(x, i, marks)
            return i
        if k == 'alt':
            j = s.new()
            for x in a[1]:
                b = s.new(); s.eps[i].append(b); s.eps[s.build(x, b, marks)].append(j)
            return j
        if k == 'rep':
            for _ in range(a[2]): i = s.build(a[1], i, marks)
            if a[3] is None:
                b = s.new(); s.eps[i].append(b); e = s.build(a[1], b, marks); s.eps[e].append(b); j = s.new(); s.eps[b].append(j); return j
            ends = [i]
            for _ in range(a[3] - a[2]): i = s.build(a[1], i, marks); ends.append(i)
            j = s.new()
            for e in ends: s.eps[e].append(j)
            return j
        if k == 'grp':
            if a[1] in marks:
                j = s.new(); s.tr[i].append((frozenset([N + 2 * a[1]]), j)); i = j
            i = s.build(a[2], i, marks)
            if a[1] in marks:
                j = s.new(); s.tr[i].append((frozenset([N + 2 * a[1] + 1]), j)); i = j
            return i
        raise Unsupported(k)

def determinize(nfa, start, final):
    def close(S):
        st = list(S); r = set(S)
        while st:
            for j in nfa.eps[st.pop()]:
                if j not in r: r.add(j); st.append(j)
        return frozenset(r)
    s0 = close(start); ids = {s0: 0}; todo = [s0]; tr = []
    while todo:
        S = todo.pop(0); d = {}
        for q in S:
            for cs, j in nfa.tr[q]:
                for c in cs: d.setdefault(c, set()).add(j)
        row = {}
        memo = {}
        for c, T in d.items():
            T = frozenset(T)
            if T not in memo:
                C = close(T)
                if C not in ids: ids[C] = len(ids); todo.append(C)
                memo[T] = ids[C]
            row[c] = memo[T]
        tr.append(row)
    return Lang.make(tr, [any(q in final for q in S) for S in sorted(ids, key=ids.get)])

class Lang:
    """canonical: minimal, numbered breadth first, without dead states"""
    def __init__(s, tr, acc): s.tr = tr; s.acc = acc
    def __hash__(s): return hash((s.tr, s.acc))
    def __eq__(s, o): return isinstance(o, Lang) and s.tr == o.tr and s.acc == o.acc
    def __lt__(s, o): return hash(s) < hash(o)
    def __repr__(s): return 'Lang(%d,%x)' % (len(s.tr), hash(s) & 0xffff)
    @staticmethod
    def make(tr, acc):
        n = len(tr)
        # states that can accept
        rev = [set() for _ in range(n)]
        for i, row in enumerate(tr):
            for j in row.values(): rev[j].add(i)
        live = set(i for i in range(n) if acc[i]); st = list(live)
        while st:
            for i in rev[st.pop()]:
                if i not in live: live.add(i); st.append(i)
        if 0 not in live: return Lang((((),),) and ((),), (False,))
        rows = [{c: j for c, j in tr[i].items() if j in live} if i in live else {} for i in range(n)]
        part = [1 if acc[i] else 0 for i in range(n)]
        while True:
            sig = {}; new = [0] * n
            for i in range(n):
                k = (part[i], tuple(sorted((c, part[j]) for c, j in rows[i].items())))
                new[i] = sig.setdefault(k, len(sig))
            if len(sig) == len(set(part)) and new == part or len(sig) == len(set(part)): part = new; break
            part = new
        rep = {}
        for i in range(n): rep.setdefault(part[i], i)
        order = {part[0]: 0}; todo = [part[0]]; out = []
        while todo:
            p = todo.pop(0)
            row = []
            for c, j in sorted(rows[rep[p]].items()):
                q = part[j]
                if q not in order: order[q] = len(order); todo.append(q)
                row.append((c, order[q]))
            out.append(tuple(row))
        inv = sorted(order, key=order.get)
        return Lang(tuple(out), tuple(bool(acc[rep[p]]) for p in inv))
    def empty(s): return not any(s.acc)
    def step(s, q, c):
        for k, j in s.tr[q]:
            if k == c: return j
        return None
    def rows(s): return [dict(r) for r in s.tr]
    def _prod(s, o, f):
        A = s.rows(); B = o.rows()
        ids = {(0, 0): 0}; todo = [(0, 0)]; tr = []
        keys = []
        while todo:
            a, b = todo.pop(0); keys.append((a, b))
            ra = A[a] if a is not None else {}; rb = B[b] if b is not None else {}
            row = {}
            for c in set(ra) | set(rb):
                k = (ra.get(c), rb.get(c))
                if k not in ids: ids[k] = len(ids); todo.append(k)
                row[c] = ids[k]
            tr.append(row)
        return Lang.make(tr, [f(a is not None and s.acc[a], b is not None and o.acc[b]) for a, b in keys])
    def __and__(s, o): return s._prod(o, lambda x, y: x and y)
    def __or__(s, o): return s._prod(o, lambda x, y: x or y)
    def __sub__(s, o): return s._prod(o, lambda x, y: x and not y)
    def __le__(s, o): return (s - o).empty()
    def erase(s, low=N):
        """without the group marks"""
        n = NFA()
        for _ in s.tr: n.new()
        for i, row in enumerate(s.tr):
            for c, j in row:
                if c >= low: n.eps[i].append(j)
                else: n.tr[i].append((frozenset([c]), j))
        return determinize(n, [0], set(i for i, a in enumerate(s.acc) if a))
    def marks(s): return set((c - N) // 2 for r in s.tr for c, _ in r if N <= c < AT)
    def renamed(s, m):
        return Lang.make([{(N + 2 * m[(c - N) // 2] + (c - N) % 2 if c >= N else c): j for c, j in r} for r in s.tr], list(s.acc))
    def sample(s):
        """a shortest member"""
        from collections import deque
        seen = {0: ''}; q = deque([0])
        while q:
            i = q.popleft()
            if s.acc[i]: return seen[i]
            for c, j in sorted(s.tr[i], key=lambda x: (not (x[0] < 128 and CH[x[0]].isalnum()), x[0])):
                if j not in seen: seen[j] = seen[i] + (CH[c] if c < N else '<>'[(c - N) % 2]); q.append(j)
        return None

@functools.lru_cache(None)
def lang(pattern, marks=()):
    """strings a search for the pattern succeeds on; with marks, the places of those groups inserted"""
    p = P(pattern)
    a = p.alt()
    if p.i != len(pattern): raise Unsupported('pattern')
    alts = a[1] if a[0] == 'alt' else [a]
    n = NFA(); s0 = n.new(); fin = n.new()
    for x in alts:
        it = list(x[1])
        l = bool(it) and it[0] == ('bol',); r = bool(it) and it[-1] == ('eol',)
        if l: it = it[1:]
        if r: it = it[:-1]
        if not l: it = [('rep', ('set', ALL), 0, None)] + it
        if not r: it = it + [('rep', ('set', ALL), 0, None)]
        b = n.new(); n.eps[s0].append(b)
        n.eps[n.build(('seq', it), b, marks)].append(fin)
    r = determinize(n, [s0], {fin})
    return (r & placed()).erase(AT) if n.asserts else r
@functools.lru_cache(None)
def placed():
    """texts in which every assertion holds where it stands"""
    # state: what is before (start, word, other), what must follow (None, word, other, end, word or other = not end)
    W = ESC['w']; states = {('s', None): 0}; todo = [('s', None)]; tr = []
    def meet(a, b): return b if a is None else a if a == b or b is None else False
    while todo:
        prev, nxt = todo.pop(0); row = {}
        def go(c, k):
            if k not in states: states[k] = len(states); todo.append(k)
            row[c] = states[k]
        for c in range(N):
            w = c in W
            if nxt is None or (nxt == 'w' if w else nxt == 'o'): go(c, ('w' if w else 'o', None))
        for g in range(MARK * 2): go(N + g, (prev, nxt))
        want = {AT: 'w' if prev != 'w' else 'o', AT + 1: 'w' if prev == 'w' else 'o', AT + 3: 'e'}
        for a, k in want.items():
            m = meet(nxt, k) if not (k == 'o' and nxt == 'e') else 'e'
            if m is False and k == 'e' and nxt == 'o': m = 'e'
            if m: go(a, (prev, m))
        if prev == 's': go(AT + 2, (prev, nxt))
        tr.append(row)
    # the end of the text counts as no word character
    keys = sorted(states, key=states.get)
    return Lang.make(tr, [k[1] in (None, 'o', 'e') for k in keys])
def word(w): return determinize(*_word(w))
def _word(w):
    n = NFA(); i = s = n.new()
    for ch in w: j = n.new(); n.tr[i].append((one(ch), j)); i = j
    return n, [s], {i}
def words(ws): return functools.reduce(lambda a, b: a | b, [word(w) for w in ws])
def any_(): return lang('^(?s).*$')
def group_is(pattern, g, w):
    """members of the pattern whose group g is exactly w"""
    m = lang(pattern, (g,))
    n = NFA(); i = s = n.new()
    n.tr[i].append((ALL, i))
    for c in [frozenset([N + 2 * g])] + [one(ch) for ch in w] + [frozenset([N + 2 * g + 1])]:
        j = n.new(); n.tr[i].append((c, j)); i = j
    n.tr[i].append((ALL, i))
    return (m & determinize(n, [s], {i})).erase()
def group_in(pattern, g, L):
    """members of the pattern whose group g can be a member of L"""
    m = lang(pattern, (g,))
    n = NFA(); s = n.new(); n.tr[s].append((ALL, s))
    base = [n.new() for _ in L.tr]; e = n.new()
    n.tr[s].append((frozenset([N + 2 * g]), base[0]))
    for i, row in enumerate(L.tr):
        for c, j in row: n.tr[base[i]].append((frozenset([c]), base[j]))
        if L.acc[i]: n.tr[base[i]].append((frozenset([N + 2 * g + 1]), e))
    n.tr[e].append((ALL, e))
    return (m & determinize(n, [s], {e})).erase()
