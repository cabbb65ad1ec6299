"""Models of the std functions luafmt calls.  Each takes (interp, state, callee, args, line) and returns [(state, value)]."""
import re
from ai import *

EXACT = {}
SUFFIX = []
def m(*names):
    def d(f):
        for n in names: EXACT[n] = f
        return f
    return d
def mre(pat):
    def d(f):
        SUFFIX.append((re.compile(pat), f)); return f
    return d
_cache = {}
def lookup(c):
    k = (c.p, c.r)
    if k in _cache: return _cache[k]
    r = EXACT.get(c.r) or EXACT.get(c.p)
    if r is None:
        for pat, f in SUFFIX:
            if pat.search(c.r or '') or pat.search(c.p or ''):
                r = f; break
    _cache[k] = r
    return r

def one(st, v): return [(st, v)]
def D(I, st, v): return I.deref(st, v)
def upd(I, st, ref, v):
    if not (isinstance(ref, tuple) and ref[0] == '&'): raise Undecided('write through a shared value')
    # the reference may lead to another reference
    while True:
        x = I.read_loc(st, ref[1], ref[2])
        if isinstance(x, tuple) and x[0] == '&': ref = x
        else: break
    I.write_loc(st, ref[1], ref[2], v)
def isref(v): return isinstance(v, tuple) and len(v) > 0 and v[0] == '&'

# ---------------- identity-like
@m('alloc::boxed::Box::<T>::new', 'core::hint::must_use', '<I as core::iter::traits::collect::IntoIterator>::into_iter',
   'alloc::string::String::as_str', 'alloc::string::String::into_boxed_str', 'core::convert::identity',
   'std::path::Path::new', 'std::path::Path::to_path_buf', 'std::path::Path::as_os_str', 'core::hint::black_box',
   'alloc::string::String::from_utf8_lossy')
def ident(I, st, c, a, ln): return one(st, a[0])

@mre(r' as core::ops::deref::Deref(Mut)?>::deref(_mut)?$')
def deref_(I, st, c, a, ln): return one(st, a[0])
@mre(r'core::(convert::AsRef|borrow::Borrow).*::(as_ref|borrow)$|alloc::vec::Vec.*::as_slice$|alloc::slice.*::to_vec$|alloc::borrow::ToOwned.*::to_owned$|<.* as core::convert::AsRef<.*>>::as_ref$')
def asref(I, st, c, a, ln): return one(st, D(I, st, a[0]) if not isref(a[0]) else a[0])
@mre(r' as core::clone::Clone>::clone$|core::clone::Clone::clone$|<impl .*core::clone::Clone.*>::clone$|alloc::string::String::to_owned|<.* as alloc::borrow::ToOwned>::to_owned$')
def clone(I, st, c, a, ln): return one(st, D(I, st, a[0]))
@mre(r'core::convert::(From|Into).*::(from|into)$')
def from_(I, st, c, a, ln):
    if c.g and len(c.g) >= 2:
        g = set(x.replace('&', '').strip() for x in c.g)
        if g <= {'alloc::string::String', "str", "'{erased} str", "'static str"} or any('String' in x for x in c.g) and any('str' in x for x in c.g):
            return one(st, D(I, st, a[0]))
        if c.g[0] == c.g[1]: return one(st, a[0])
    if c.key and c.key in I.prog.raw: return NotImplemented
    if isref(a[0]): raise Undecided('conversion ' + str(c))
    return one(st, ('call', 'into', c.g, D(I, st, a[0])))

@mre(r'core::cmp::PartialEq.*>::(eq|ne)$|core::cmp::PartialEq::(eq|ne)$')
def peq(I, st, c, a, ln):
    h = I.hooks.get('model:eq')
    if h:
        r = h(I, st, c, a, ln)
        if r is not None: return r
    r = I.simp_eq(st, a[0], a[1])
    nm = (c.p or c.r).rsplit('::', 1)[-1]
    return one(st, lnot(r) if nm == 'ne' else r)

@m('core::cmp::Ord::max', 'core::cmp::max', 'core::cmp::Ord::min', 'core::cmp::min')
def minmax(I, st, c, a, ln):
    x, y = D(I, st, a[0]), D(I, st, a[1])
    mx = c.p.endswith('max')
    if c.g and c.g[0] not in ('usize', 'u64', 'u32', 'i64', 'i32', 'u8', 'isize', 'char'): return NotImplemented
    if x == y: return one(st, x)
    out = []
    for s, b in I.fork(st, le(x, y)):
        out.append((s, (y if b else x) if mx else (x if b else y)))
    return out
EXACT['core::cmp::Ord::max'] = minmax
@mre(r'<?core::cmp::impls::.*core::cmp::Ord.*::(max|min)$|<(usize|u64|u32|i32) as core::cmp::Ord>::(max|min)$')
def minmax2(I, st, c, a, ln):
    x, y = D(I, st, a[0]), D(I, st, a[1])
    mx = c.r.endswith('max')
    if x == y: return one(st, x)
    return [(s, (y if b else x) if mx else (x if b else y)) for s, b in I.fork(st, le(x, y))]

@m('core::mem::drop', 'core::mem::forget')
def drop_(I, st, c, a, ln): return one(st, UNIT)
@m('core::mem::take')
def take_(I, st, c, a, ln):
    v = D(I, st, a[0])
    g = c.g[0] if c.g else ''
    if 'String' in g: d = ''
    elif 'Vec' in g: d = ('V', ())
    elif 'Option' in g: d = none()
    elif g == 'bool': d = False
    elif g in BITS: d = 0
    else: raise Undecided('mem::take ' + g)
    upd(I, st, a[0], d)
    return one(st, v)
@m('core::mem::replace')
def repl_(I, st, c, a, ln):
    v = D(I, st, a[0]); upd(I, st, a[0], a[1]); return one(st, v)
@m('core::option::Option::<T>::take')
def otake_(I, st, c, a, ln):
    v = D(I, st, a[0]); upd(I, st, a[0], none()); return one(st, v)

# ---------------- cells: identity is the term naming the cell
@m('core::cell::Cell::<T>::new')
def cellnew(I, st, c, a, ln): return one(st, ('A', 'core::cell::Cell', 0, (a[0],)))
@m('core::cell::Cell::<T>::get')
def cellget(I, st, c, a, ln):
    v = D(I, st, a[0])
    if v[0] == 'A': return one(st, v[3][0])
    h = st.heap.get(('cell', v))
    return one(st, h if h is not None else ('cellv', v))
@m('core::cell::Cell::<T>::set', 'core::cell::Cell::<T>::replace')
def cellset(I, st, c, a, ln):
    v = D(I, st, a[0])
    if v[0] == 'A':
        if isref(a[0]): upd(I, st, a[0], ('A', v[1], 0, (a[1],))); return one(st, UNIT)
        raise Undecided('set of an anonymous cell')
    st.heap[('cell', v)] = a[1]
    return one(st, UNIT)

# ---------------- strings
@m('alloc::string::String::new', 'alloc::string::String::with_capacity')
def snew(I, st, c, a, ln): return one(st, '')
@mre(r'<alloc::string::String as core::default::Default>::default$')
def sdef(I, st, c, a, ln): return one(st, '')
def append(I, st, ref, s):
    upd(I, st, ref, concat(D(I, st, ref), s))
@m('alloc::string::String::push', 'alloc::string::String::push_str')
def spush(I, st, c, a, ln):
    v = D(I, st, a[1])
    if c.r.endswith('push') and is_sym(v): s = ('S', (('c', v),))
    else: s = v
    append(I, st, a[0], s); return one(st, UNIT)
@m('core::fmt::Write::write_str', '<alloc::string::String as core::fmt::Write>::write_str')
def swstr(I, st, c, a, ln):
    append(I, st, a[0], D(I, st, a[1])); return one(st, OKU)
@m('core::fmt::Write::write_char', '<alloc::string::String as core::fmt::Write>::write_char')
def swch(I, st, c, a, ln):
    v = D(I, st, a[1])
    append(I, st, a[0], ('S', (('c', v),)) if is_sym(v) else v); return one(st, OKU)
@m('alloc::string::String::insert', 'alloc::string::String::insert_str')
def sinsert(I, st, c, a, ln):
    i = D(I, st, a[1]); v = D(I, st, a[2])
    s = ('S', (('c', v),)) if is_sym(v) and c.r.endswith('insert') else v
    cur = D(I, st, a[0])
    if i == 0: upd(I, st, a[0], concat(s, cur)); return one(st, UNIT)
    if isinstance(cur, str) and isinstance(i, int) and i <= len(cur) and cur.isascii():
        upd(I, st, a[0], mkS((cur[:i],) + pieces(s) + (cur[i:],))); return one(st, UNIT)
    if isinstance(i, int):
        ps = pieces(cur)
        if ps and isinstance(ps[0], str) and len(ps[0]) >= i and ps[0].isascii():
            upd(I, st, a[0], mkS((ps[0][:i],) + pieces(s) + (ps[0][i:],) + tuple(ps[1:]))); return one(st, UNIT)
    upd(I, st, a[0], ('S', (('insert', cur, i, s),))); return one(st, UNIT)
@m('alloc::string::String::len', 'core::str::<impl str>::len')
def slen(I, st, c, a, ln):
    return one(st, textlen(D(I, st, a[0])))
def textlen(v):
    if isinstance(v, str): return len(v.encode())
    tot = 0
    for p in pieces(v):
        tot = add(tot, len(p.encode()) if isinstance(p, str) else (('utf8len', p[1]) if p[0] == 'c' else ('call', 'len', p)))
    return tot
@m('core::char::methods::<impl char>::len_utf8')
def clen(I, st, c, a, ln):
    v = D(I, st, a[0])
    if v[0] == 'ch': return one(st, len(chr(v[1]).encode()))
    return one(st, ('utf8len', v))
def empty_term(v):
    if isinstance(v, str): return v == ''
    ps = pieces(v)
    if any(isinstance(p, str) or p[0] in ('c', 'rep1') for p in ps): return False
    return ('b', 'empty', ps)
@m('alloc::string::String::is_empty', 'core::str::<impl str>::is_empty')
def sempty(I, st, c, a, ln):
    return one(st, empty_term(D(I, st, a[0])))
@m('alloc::string::String::clear')
def sclear(I, st, c, a, ln): upd(I, st, a[0], ''); return one(st, UNIT)
@m('alloc::string::String::reserve', 'alloc::vec::Vec::<T, A>::reserve', 'alloc::string::String::shrink_to_fit')
def snop(I, st, c, a, ln): return one(st, UNIT)
@m('alloc::string::String::truncate')
def strunc(I, st, c, a, ln):
    v = D(I, st, a[0]); n = a[1]
    if n == 0: upd(I, st, a[0], ''); return one(st, UNIT)
    if isinstance(v, str) and isinstance(n, int): upd(I, st, a[0], v[:n]); return one(st, UNIT)
    upd(I, st, a[0], ('S', (('truncated', v, n),))); return one(st, UNIT)

def lastch(I, v):
    """Option<char> value for the last char of a string"""
    if isinstance(v, str): return some(('ch', ord(v[-1]))) if v else none()
    ps = pieces(v)
    if isinstance(ps[-1], str): return some(('ch', ord(ps[-1][-1])))
    if ps[-1][0] == 'c': return some(ps[-1][1])
    return ('lastch', v)
def firstch(I, v):
    if isinstance(v, str): return some(('ch', ord(v[0]))) if v else none()
    ps = pieces(v)
    if isinstance(ps[0], str): return some(('ch', ord(ps[0][0])))
    if ps[0][0] == 'c': return some(ps[0][1])
    return ('firstch', v)
@m('alloc::string::String::pop')
def spop(I, st, c, a, ln):
    v = D(I, st, a[0])
    if isinstance(v, str):
        if not v: return one(st, none())
        upd(I, st, a[0], v[:-1]); return one(st, some(('ch', ord(v[-1]))))
    ps = list(pieces(v))
    l = lastch(I, v)
    if isinstance(ps[-1], str):
        ps[-1] = ps[-1][:-1]
        upd(I, st, a[0], mkS(ps)); return one(st, l)
    if ps[-1][0] == 'c':
        upd(I, st, a[0], mkS(ps[:-1])); return one(st, l)
    h = I.hooks.get('model:pop')
    if h: return h(I, st, a[0], v, l)
    upd(I, st, a[0], ('S', tuple(ps) + (('pop', l),)))
    return one(st, l)
@m('core::str::<impl str>::starts_with', 'core::str::<impl str>::ends_with', 'core::str::<impl str>::contains')
def sstarts(I, st, c, a, ln):
    v = D(I, st, a[0]); p = D(I, st, a[1])
    nm = c.r.rsplit('::', 1)[-1]
    if isinstance(p, tuple) and p[0] == 'ch': p = chr(p[1])
    if isinstance(p, str):
        if isinstance(v, str):
            return one(st, v.startswith(p) if nm == 'starts_with' else v.endswith(p) if nm == 'ends_with' else p in v)
        if len(p) == 1 and nm != 'contains':
            o = firstch(I, v) if nm == 'starts_with' else lastch(I, v)
            return one(st, I.simp_eq(st, o, some(('ch', ord(p)))))
        ps = pieces(v)
        if nm == 'starts_with' and isinstance(ps[0], str) and len(ps[0]) >= len(p): return one(st, ps[0].startswith(p))
        if nm == 'ends_with' and isinstance(ps[-1], str) and len(ps[-1]) >= len(p): return one(st, ps[-1].endswith(p))
        if nm == 'contains' and any(isinstance(x, str) and p in x for x in ps): return one(st, True)
        if nm != 'contains':
            r = affix(I, st, v, p, nm == 'starts_with')
            if r is not None: return r
    elif nm != 'contains' and not isinstance(p, str):
        e = ends(v, nm == 'starts_with')
        cls = char_pattern(I, st, p, domain(st, [('c', e)] if isinstance(e, tuple) else []))
        if cls is not None:
            ch = ends(v, nm == 'starts_with')
            if ch == 'none': return one(st, False)
            r = member(I, st, ch, cls) if ch is not None else None
            if r is not None: return r
    return one(st, ('b', nm, v, p))
def ends(v, front):
    """the first or last character of a text if its piece is known, 'none' for an empty text, None if unknown"""
    if v == '': return 'none'
    p = pieces(v)[0 if front else -1]
    if isinstance(p, str): return ('ch', ord(p[0 if front else -1]))
    return p[1] if p[0] == 'c' else None
def cut(v, front):
    ps = list(pieces(v)); i = 0 if front else -1
    if isinstance(ps[i], str) and len(ps[i]) > 1: ps[i] = ps[i][1:] if front else ps[i][:-1]
    else: del ps[i]
    return mkS(ps)
def member(I, st, ch, cls):
    """[(state, is ch in cls)] for a character known to be one of a set; None if its set is unknown"""
    test = (lambda x: chr(x[1]).isspace()) if cls == 'ws' else (lambda x: chr(x[1]) in cls)
    if ch[0] == 'ch': return [(st, test(ch))]
    d = st.facts.get(ch)
    if not d or d[0] != 'in': return None
    out = []
    for b in (True, False):
        xs = frozenset(x for x in d[1] if test(x) == b)
        if xs:
            s = st if xs == d[1] else st.copy()
            s.facts[ch] = ('in', xs); out.append((s, b))
    return out
def affix(I, st, v, p, front):
    work = [(st, v, p)]; out = []
    while work:
        s, v, p = work.pop()
        if p == '': out.append((s, True)); continue
        ch = ends(v, front)
        if ch is None: return None
        if ch == 'none': out.append((s, False)); continue
        r = member(I, s, ch, frozenset([p[0 if front else -1]]))
        if r is None: return None
        for s2, b in r:
            if b: work.append((s2, cut(v, front), p[1:] if front else p[:-1]))
            else: out.append((s2, False))
    return out
def peel(I, st, v, cls, front):
    """[(state, text)] without the leading (or trailing) characters of a class; None if they are unknown"""
    work = [(st, v)]; out = []
    while work:
        s, v = work.pop()
        ch = ends(v, front)
        if ch is None: return None
        if ch == 'none': out.append((s, v)); continue
        r = member(I, s, ch, cls)
        if r is None: return None
        for s2, b in r:
            if b: work.append((s2, cut(v, front)))
            else: out.append((s2, v))
    return out
@mre(r'core::str::<impl str>::(strip_prefix|strip_suffix)$')
def sstrip(I, st, c, a, ln):
    v = D(I, st, a[0]); p = D(I, st, a[1]); front = c.r.endswith('prefix')
    if isinstance(p, tuple) and p[0] == 'ch': p = chr(p[1])
    if isinstance(p, str):
        if isinstance(v, str): return one(st, (some(v[len(p):]) if v.startswith(p) else none()) if front else (some(v[:len(v) - len(p)]) if v.endswith(p) else none()))
        r = affix(I, st, v, p, front)
        if r is not None:
            out = []
            for s, b in r:
                w = v
                if b:
                    for _ in p: w = cut(w, front)
                out.append((s, some(w) if b else none()))
            return out
    return one(st, ('call', c.r.rsplit('::', 1)[-1], v, p))
@mre(r'core::str::<impl str>::(trim|trim_start|trim_end|trim_end_matches|trim_start_matches|trim_matches|trim_left|trim_right)$')
def strim(I, st, c, a, ln):
    v = D(I, st, a[0]); nm = c.r.rsplit('::', 1)[-1]
    pred = None
    if len(a) > 1:
        p = D(I, st, a[1])
        pred = char_pattern(I, st, p, domain(st, pieces(v)))
        if pred is None: return one(st, ('S', (('trimx', nm, v, p),)))
    cls = 'ws' if pred is None else pred
    if isinstance(v, str):
        f = (lambda ch: ch.isspace()) if pred is None else (lambda ch: ch in pred if isinstance(pred, frozenset) else False)
        s = v
        if 'start' in nm or nm in ('trim', 'trim_matches', 'trim_left'):
            while s and f(s[0]): s = s[1:]
        if 'end' in nm or nm in ('trim', 'trim_matches', 'trim_right'):
            while s and f(s[-1]): s = s[:-1]
        return one(st, s)
    side = 'l' if ('start' in nm or 'left' in nm) else 'r' if ('end' in nm or 'right' in nm) else 'lr'
    h = I.hooks.get('model:trim')
    if h:
        r = h(I, st, v, side, cls)
        if r is not None: return r
    ss = [(st, v)]
    for front in (True, False):
        if ('l' if front else 'r') not in side: continue
        ns = []
        for s, x in ss:
            r = peel(I, s, x, cls, front)
            if r is None: ss = None; break
            ns += r
        else: ss = ns; continue
        break
    if ss is not None: return ss
    return one(st, ('S', (('trim', side, cls, v),)))
PROBE = [' ', '\t', '\n', '\r', '\x0b', '\x0c', 'a', 'Z', '0', '_', '-', '[', ']', '=', '"', "'", '\\', '.', ';', ',', '(', ')', '\u00e9', '\u00a0']
def domain(st, ps):
    """the characters the text is known to be made of, where that is known"""
    out = set()
    for p in ps:
        if isinstance(p, str): out |= set(p[:64])
        elif p[0] == 'c':
            d = st.facts.get(p[1])
            if d and d[0] == 'in': out |= set(chr(x[1]) for x in d[1] if isinstance(x, tuple) and x[0] == 'ch')
            elif p[1][0] == 'ch': out.add(chr(p[1][1]))
    return out
def char_pattern(I, st, p, extra=()):
    """the set of PROBE chars a pattern matches"""
    if isinstance(p, tuple) and p[0] == 'ch': return frozenset([chr(p[1])])
    if isinstance(p, str): return frozenset(p) if len(p) == 1 else None
    if isinstance(p, tuple) and p[0] == 'V' and all(isinstance(x, tuple) and x[0] == 'ch' for x in p[1]):
        return frozenset(chr(x[1]) for x in p[1])
    if isinstance(p, tuple) and p[0] in ('F', 'fn'):
        out = set()
        for ch in PROBE + sorted(set(extra) - set(PROBE)):
            try: rs = I.call_value(st.copy(), p, [('ch', ord(ch))])
            except Infeasible: return None
            vals = set(r for _, r in rs)
            if vals == {True}: out.add(ch)
            elif vals != {False}: return None
        return frozenset(out)
    return None
@m('core::str::<impl str>::find')
def sfind(I, st, c, a, ln):
    v = D(I, st, a[0]); p = D(I, st, a[1])
    if isinstance(p, tuple) and p[0] == 'ch': p = chr(p[1])
    if isinstance(v, str) and isinstance(p, str):
        i = v.find(p)
        return one(st, none() if i < 0 else some(len(v[:i].encode())))
    return one(st, ('call', 'find', v, p))
def occurs(I, st, v, p):
    """where the literal p occurs in a text of known length: [(index, ...)] over its characters, None if that is not known"""
    if not all(isinstance(x, str) or x[0] == 'c' for x in pieces(v)): return None
    cs = [x for q in pieces(v) for x in ([('ch', ord(y)) for y in q] if isinstance(q, str) else [q[1]])] if v != '' else []
    out = []
    for i in range(len(cs) - len(p) + 1):
        r = True
        for j, ch in enumerate(p):
            e = I.simp_eq(st, cs[i + j], ('ch', ord(ch)))
            e = e if isinstance(e, bool) else I.eval_bool(st, e)
            if e is False: r = False; break
            if e is not True: r = None
        if r is None: return None
        if r: out.append(i)
    return cs, out
@m('core::str::<impl str>::split', 'core::str::<impl str>::rsplit', 'core::str::<impl str>::split_terminator')
def ssplit(I, st, c, a, ln):
    v = D(I, st, a[0]); p = D(I, st, a[1]); nm = c.r.rsplit('::', 1)[-1]
    h = I.hooks.get('model:' + nm)
    if h:
        r = h(I, st, c, a, ln)
        if r is not None: return r
    if isinstance(p, tuple) and p[0] == 'ch': p = chr(p[1])
    o = occurs(I, st, v, p) if isinstance(p, str) and p else None
    if o is None or nm == 'split_terminator': return one(st, ('call', c.r if nm != 'split' else nm, v) + tuple(D(I, st, x) for x in a[1:]))
    cs, at = o; cuts = []
    if nm == 'split':
        e = 0
        for i in at:
            if i >= e: cuts.append(i); e = i + len(p)
    else:
        e = len(cs)
        for i in reversed(at):
            if i + len(p) <= e: cuts.insert(0, i); e = i
    mk = lambda xs: mkS([chr(x[1]) if x[0] == 'ch' else ('c', x) for x in xs]) if xs else ''
    parts = []; b = 0
    for i in cuts: parts.append(mk(cs[b:i])); b = i + len(p)
    parts.append(mk(cs[b:]))
    if nm == 'rsplit': parts.reverse()
    return one(st, ('It', 'items', tuple(parts)))
@mre(r'core::str::<impl str>::(parse|split.*|replace|to_lowercase|to_uppercase|repeat|lines|bytes|as_bytes|char_indices|split_whitespace)$')
def spure(I, st, c, a, ln):
    v = D(I, st, a[0]); nm = c.r.rsplit('::', 1)[-1]
    h = I.hooks.get('model:' + nm)
    if h:
        r = h(I, st, c, a, ln)
        if r is not None: return r
    if nm == 'parse':
        ty = c.g[-1] if c.g else '?'
        for g in c.g: ty = g
        if ty == 'alloc::string::String': return one(st, ok(v))
        return one(st, ('call', 'parse', ty, v))
    if nm == 'repeat' :
        if isinstance(v, str) and isinstance(a[1], int): return one(st, v * a[1])
        return one(st, ('S', (('rep', pieces(v), a[1]),)))
    if nm == 'char_indices' and I.hooks.get('model:maps') and all(isinstance(p, str) or p[0] == 'c' for p in pieces(v)):
        out = []; off = 0
        for p in pieces(v):
            for x in ([('ch', ord(y)) for y in p] if isinstance(p, str) else [p[1]]):
                out.append(('T', (off, x))); off = add(off, len(chr(x[1]).encode()) if x[0] == 'ch' else ('utf8len', x))
        return one(st, ('It', 'items', tuple(out)))
    if nm == 'char_indices': return one(st, ('It', 'op', 'char_indices', ('It', 'chars', v), None))
    return one(st, ('call', nm, v) + tuple(D(I, st, x) for x in a[1:]))
@mre(r'(<alloc::string::String as core::ops::index::Index<I>>::index|core::str::traits::<impl core::ops::index::Index<I> for str>::index)$')
def sindex(I, st, c, a, ln):
    v = D(I, st, a[0]); r = D(I, st, a[1])
    return slice_str(I, st, v, r, ln)
def slice_str(I, st, v, r, ln):
    lo, hi = 0, None
    p = r[1] if r[0] == 'A' else ''
    if p.endswith('RangeFull'): return one(st, v)
    if p.endswith('RangeFrom'): lo = r[3][0]
    elif p.endswith('RangeTo'): hi = r[3][0]
    elif p.endswith('RangeInclusive') : raise Undecided('inclusive range')
    elif p.endswith('Range'): lo, hi = r[3]
    else: raise Undecided('slice by %r' % (r,))
    if lo == 0 and hi is None: return one(st, v)
    h = I.hooks.get('model:slice')
    if h:
        x = h(I, st, v, lo, hi, ln)
        if x is not None: return x
    if isinstance(v, str) and isinstance(lo, int) and (hi is None or isinstance(hi, int)):
        b = v.encode()
        try: return one(st, b[lo:hi if hi is not None else len(b)].decode())
        except UnicodeDecodeError:
            I.panic(st, I.stack[-1], ln, 'str slice', (v, lo, hi)); return []
    ps = pieces(v)
    if hi is None and ps:
        # dropping known leading bytes
        if isinstance(lo, int) and isinstance(ps[0], str) and len(ps[0].encode()) >= lo:
            b = ps[0].encode()
            return one(st, mkS((b[lo:].decode(),) + ps[1:]))
        if ps[0][0] == 'c' and lo == ('utf8len', ps[0][1]): return one(st, mkS(ps[1:]))
        if ps[0][0] == 'c' and lo == 1:
            I.panic(st, I.stack[-1], ln, 'str slice at 1 after a char of unknown width', v) if I.hooks.get('strict-slices') else None
            return one(st, mkS(ps[1:]))
    w = v
    if isinstance(lo, int): w = drop_bytes(st, w, lo, True)
    else: w = None
    if w is not None and hi is not None:
        k = add(textlen(v), hi, -1)
        w = drop_bytes(st, w, k, False) if isinstance(k, int) and k >= 0 else None
    if w is not None: return one(st, w)
    d = st.facts.get(('f', ('firstch', v), 1, 0)) if hi is None and isinstance(lo, int) else None
    if not (d and d[0] == 'in' and all(x[0] == 'ch' and len(chr(x[1]).encode()) == lo for x in d[1])): I.undet(ln, 'str slice')
    return one(st, ('S', (('slice', v, lo, hi),)))
def drop_bytes(st, v, n, front):
    while n > 0:
        ch = ends(v, front)
        if ch is None or ch == 'none': return None
        d = st.facts.get(ch, ('in', frozenset([ch])) if ch[0] == 'ch' else ('', ()))
        if d[0] != 'in' or any(x[1] > 127 for x in d[1]):
            if len(d[1]) != 1 or d[0] != 'in': return None
        n -= max(len(chr(x[1]).encode()) for x in d[1])
        v = cut(v, front)
    return v if n == 0 else None

# ---------------- formatting
def decode_template(b):
    out = []; i = 0
    while i < len(b):
        n = b[i]
        if n == 0: break
        if n < 0x80:
            out.append(b[i + 1:i + 1 + n].decode()); i += 1 + n
        elif n == 0x80:
            ln = b[i + 1] | b[i + 2] << 8
            out.append(b[i + 3:i + 3 + ln].decode()); i += 3 + ln
        elif n == 0xc0:
            out.append(('arg', None)); i += 1
        else: raise Undecided('format placeholder with options %r' % (b,))
    return out
@m("core::fmt::Arguments::<'a>::from_str")
def fstr(I, st, c, a, ln): return one(st, ('A', 'fmt', 0, (a[0], ('V', ()))))
@m("core::fmt::Arguments::<'a>::new")
def fnew(I, st, c, a, ln): return one(st, ('A', 'fmt', 0, (D(I, st, a[0]), D(I, st, a[1]))))
@mre(r"core::fmt::rt::Argument::<'_>::new_(display|debug)$")
def farg(I, st, c, a, ln):
    ty = c.g[-1] if c.g else '?'
    return one(st, ('A', 'fmtarg', 0 if c.r.endswith('display') else 1, (D(I, st, a[0]), ty)))
def render(I, st, args):
    """[(state, string, ok)] for an Arguments value"""
    args = D(I, st, args)
    if args[0] != 'A': raise Undecided('format arguments %r' % (args,))
    tmpl, vals = args[3]
    if isinstance(tmpl, str): return [(st, tmpl, True)]
    if not isinstance(tmpl, bytes): raise Undecided('format template')
    states = [(st, '', True)]
    vs = vals[1]; k = 0
    for p in decode_template(tmpl):
        if isinstance(p, str):
            states = [(s, concat(x, p) if o else x, o) for s, x, o in states]
        else:
            av = vs[k]; k += 1
            ns = []
            for s, x, o in states:
                if not o: ns.append((s, x, o)); continue
                for s2, t, o2 in display(I, s, av[3][0], av[3][1], av[2] == 1):
                    ns.append((s2, concat(x, t), o2))
            states = ns
    return states
def striptype(ty):
    t = ty
    while True:
        t = t.strip()
        if t.startswith('&'):
            t = re.sub(r"^&('[\w{}]+ )?(mut )?", '', t)
        elif t.startswith('alloc::boxed::Box<') and t.endswith('>'): t = t[18:-1]
        else: return t
def display(I, st, v, ty, dbg):
    v = D(I, st, v)
    t = striptype(ty)
    if t in ('alloc::string::String', 'str', "alloc::borrow::Cow<'{erased}, str>") and not dbg:
        return [(st, v, True)]
    if t == 'char' and not dbg:
        return [(st, ('S', (('c', v),)) if is_sym(v) else chr(v[1]), True)]
    if t in BITS and not dbg:
        if isinstance(v, int): return [(st, str(v), True)]
        return [(st, ('S', (('num', v),)), True)]
    if t.startswith('core::fmt::Arguments'): return render(I, st, v)
    if not dbg:
        key = '<%s as core::fmt::Display>::fmt' % t
        keys = [k for k in I.prog.raw if k == key or k.startswith('<' + t) and k.endswith(' as core::fmt::Display>::fmt')]
        if keys and I.hooks.get('display:' + t): return I.hooks['display:' + t](I, st, v)
        if keys:
            n = ('fmtbuf', len(I.stack), I.steps)
            st.heap[n] = ''
            out = []
            for s, r in I.run(st, keys[0], [v, ('&', ('H', n), ())]):
                x = s.heap.pop(n)
                for s2, b in I.fork(s, I.simp_eq(s, r, OKU)):
                    out.append((s2, x, b))
            return out
    if dbg and isinstance(v, (bool, int)): return [(st, ('S', (('dbg', v),)), True)]
    if is_sym(v) or dbg: return [(st, ('S', (('dbg' if dbg else 'disp', v),)), True)]
    return [(st, ('S', (('disp', v),)), True)]
@m('core::fmt::Write::write_fmt', "core::fmt::Formatter::<'a>::write_fmt")
def wfmt(I, st, c, a, ln):
    out = []
    for s, x, o in render(I, st, a[1]):
        append(I, s, a[0], x)
        out.append((s, OKU if o else err(FMTERR)))
    return out
@m("core::fmt::Formatter::<'a>::write_str", "core::fmt::Formatter::<'a>::pad")
def wstr(I, st, c, a, ln):
    append(I, st, a[0], D(I, st, a[1])); return one(st, OKU)
@m('<str as core::fmt::Display>::fmt', '<alloc::string::String as core::fmt::Display>::fmt')
def dstr(I, st, c, a, ln):
    append(I, st, a[1], D(I, st, a[0])); return one(st, OKU)
@mre(r"core::fmt::Formatter::<'a>::debug_")
def fdbg(I, st, c, a, ln):
    append(I, st, a[0], ('S', (('dbg', D(I, st, a[1])),))); return one(st, OKU)
@m('alloc::fmt::format', 'alloc::fmt::format::format_inner')
def ffmt(I, st, c, a, ln):
    return [(s, x) for s, x, o in render(I, st, a[0])]
@m('<T as alloc::string::ToString>::to_string', 'alloc::string::ToString::to_string')
def tostr(I, st, c, a, ln):
    ty = c.g[0] if c.g else '?'
    return [(s, x) for s, x, o in display(I, st, a[0], ty, False)]
def outp(name):
    def f(I, st, c, a, ln):
        out = []
        h = I.hooks.get('model:print')
        for s, x, o in render(I, st, a[0]):
            if h: h(I, s, name, x)
            elif name in s.heap: s.heap[name] = concat(s.heap[name], x)
            out.append((s, UNIT))
        return out
    return f
EXACT['std::io::stdio::_print'] = outp('stdout')
EXACT['std::io::stdio::_eprint'] = outp('stderr')

# ---------------- vectors
@m('alloc::vec::Vec::<T>::new', 'alloc::vec::Vec::<T>::with_capacity', '<alloc::vec::Vec<T> as core::default::Default>::default', 'alloc::vec::Vec::<T, A>::with_capacity')
def vnew(I, st, c, a, ln): return one(st, ('V', ()))
def vec(I, st, r):
    v = D(I, st, r)
    if isinstance(v, tuple) and v[0] == 'V': return v[1]
    return None
@m('alloc::vec::Vec::<T, A>::push')
def vpush(I, st, c, a, ln):
    v = vec(I, st, a[0])
    if v is None:
        x = D(I, st, a[0])
        upd(I, st, a[0], ('vpush', x, a[1]))
        return one(st, UNIT)
    upd(I, st, a[0], ('V', v + (a[1],))); return one(st, UNIT)
@m('alloc::vec::Vec::<T, A>::insert')
def vinsert(I, st, c, a, ln):
    v = vec(I, st, a[0]); i = a[1]
    if v is None:
        upd(I, st, a[0], ('vinsert', D(I, st, a[0]), i, a[2])); return one(st, UNIT)
    if not isinstance(i, int): raise Undecided('insert at a symbolic index')
    if i > len(v): I.panic(st, I.stack[-1], ln, 'insert index', i); return []
    upd(I, st, a[0], ('V', v[:i] + (a[2],) + v[i:])); return one(st, UNIT)
@m('alloc::vec::Vec::<T, A>::pop')
def vpop(I, st, c, a, ln):
    v = vec(I, st, a[0])
    if v is None:
        x = D(I, st, a[0])
        if isinstance(x, tuple) and x[0] == 'vpush':
            upd(I, st, a[0], x[1]); return one(st, some(x[2]))
        upd(I, st, a[0], ('vpop', x))
        return one(st, ('call', 'last', x))
    if not v: return one(st, none())
    upd(I, st, a[0], ('V', v[:-1])); return one(st, some(v[-1]))
@m('alloc::vec::Vec::<T, A>::append')
def vappend(I, st, c, a, ln):
    v = vec(I, st, a[0]); w = vec(I, st, a[1])
    if v is None or w is None: raise Undecided('append')
    upd(I, st, a[0], ('V', v + w)); upd(I, st, a[1], ('V', ())); return one(st, UNIT)
@m('alloc::vec::Vec::<T, A>::remove')
def vremove(I, st, c, a, ln):
    v = vec(I, st, a[0]); i = a[1]
    if v is None or not isinstance(i, int): raise Undecided('remove')
    if i >= len(v): I.panic(st, I.stack[-1], ln, 'remove index', i); return []
    upd(I, st, a[0], ('V', v[:i] + v[i + 1:])); return one(st, v[i])
@m('alloc::vec::Vec::<T, A>::clear')
def vclear(I, st, c, a, ln): upd(I, st, a[0], ('V', ())); return one(st, UNIT)
@mre(r'alloc::vec::Vec::<T, A>::len$|core::slice::<impl \[T\]>::len$')
def vlen(I, st, c, a, ln):
    v = vec(I, st, a[0])
    return one(st, len(v) if v is not None else ('call', 'len', D(I, st, a[0])))
@mre(r'alloc::vec::Vec::<T, A>::is_empty$|core::slice::<impl \[T\]>::is_empty$')
def vempty(I, st, c, a, ln):
    v = vec(I, st, a[0])
    return one(st, len(v) == 0 if v is not None else I.simp_eq(st, ('call', 'len', D(I, st, a[0])), 0))
@mre(r'core::slice::<impl \[T\]>::(last|first|last_mut|first_mut)$')
def vlast(I, st, c, a, ln):
    v = vec(I, st, a[0]); nm = c.r.rsplit('::', 1)[-1]
    if v is None:
        x = D(I, st, a[0])
        if nm == 'last' and isinstance(x, tuple) and x[0] == 'vpush': return one(st, some(x[2]))
        if nm.endswith('mut'): raise Undecided(nm)
        return one(st, ('call', nm, x))
    if not v: return one(st, none())
    j = len(v) - 1 if nm.startswith('last') else 0
    if nm.endswith('mut'):
        r = a[0]
        return one(st, some(('&', r[1], r[2] + (('ix', j),))))
    return one(st, some(v[j]))
@mre(r'core::slice::<impl \[T\]>::get$')
def vget(I, st, c, a, ln):
    v = vec(I, st, a[0])
    if v is None or not isinstance(a[1], int): return one(st, ('call', 'get', D(I, st, a[0]), a[1]))
    return one(st, some(v[a[1]]) if a[1] < len(v) else none())
@mre(r'alloc::vec::Vec<T, A> as core::ops::index::Index(Mut)?<I>>::index(_mut)?$|<impl core::ops::index::Index(Mut)?<I> for \[T\]>::index(_mut)?$')
def vindex(I, st, c, a, ln):
    mut = 'index_mut' in (c.r or '') and isref(a[0])
    v = vec(I, st, a[0]); i = D(I, st, a[1])
    if isinstance(i, tuple) and i[0] == 'A' and 'Range' in i[1]:
        if v is None: return one(st, ('call', 'index', D(I, st, a[0]), i))
        lo, hi = 0, len(v)
        if i[1].endswith('RangeFrom'): lo = i[3][0]
        elif i[1].endswith('RangeTo'): hi = i[3][0]
        elif i[1].endswith('::Range'): lo, hi = i[3]
        if isinstance(lo, int) and isinstance(hi, int) and lo <= hi <= len(v): return one(st, ('V', v[lo:hi]))
        raise Undecided('slice')
    if v is not None and isinstance(i, int):
        if i >= len(v):
            I.panic(st, I.stack[-1], ln, 'vec index', (len(v), i)); return []
        if mut: return one(st, ('&', a[0][1], a[0][2] + (('ix', i),)))
        return one(st, v[i])
    h = I.hooks.get('model:vindex')
    if h:
        r = h(I, st, a, v, i, ln)
        if r is not None: return r
    if mut: raise Undecided('symbolic index_mut')
    n = ('call', 'len', D(I, st, a[0]))
    if not (isinstance(i, int) and i < 4 and all(I.eval_bool(st, I.simp_eq(st, n, k)) is False for k in range(i + 1))): I.undet(ln, 'index')
    return one(st, ('call', 'index', D(I, st, a[0]), i))

@mre(r'core::slice::<impl \[T\]>::(windows|chunks)$')
def vwindows(I, st, c, a, ln):
    v = vec(I, st, a[0]); n = a[1]
    if v is None or not isinstance(n, int) or n == 0: raise Undecided('windows')
    xs = [v[i:i + n] for i in (range(len(v) - n + 1) if c.r.endswith('windows') else range(0, len(v), n))]
    return one(st, ('It', 'items', tuple(('V', tuple(x)) for x in xs)))
@mre(r'core::slice::<impl \[T\]>::(split_first|split_last)$')
def vsplit1(I, st, c, a, ln):
    v = vec(I, st, a[0])
    if v is None: raise Undecided('split_first')
    if not v: return one(st, none())
    return one(st, some(('T', (v[0], ('V', tuple(v[1:]))) if c.r.endswith('first') else (v[-1], ('V', tuple(v[:-1]))))))
@mre(r'^<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<(T|&\'\w+ T)>>::extend$')
def vextend(I, st, c, a, ln):
    v = vec(I, st, a[0])
    if v is None: raise Undecided('extend')
    d = drain(I, st, it_of(I, st, a[1]))
    if d is None: raise Undecided('extend by a symbolic sequence')
    out = []
    for s, xs in d: upd(I, s, a[0], ('V', tuple(v) + tuple(D(I, s, x) for x in xs))); out.append((s, UNIT))
    return out
@mre(r'core::num::<impl (usize|u64|u32|u16|u8)>::(saturating_sub|checked_sub|abs_diff)$')
def numsub(I, st, c, a, ln):
    x, y = D(I, st, a[0]), D(I, st, a[1]); nm = c.r.rsplit('::', 1)[-1]
    out = []
    for s, b in I.fork(st, le(y, x)):
        if b: r = add(x, y, -1); out.append((s, some(r) if nm == 'checked_sub' else r))
        else: out.append((s, none() if nm == 'checked_sub' else 0 if nm == 'saturating_sub' else add(y, x, -1)))
    return out

# ---------------- iterators
def it_of(I, st, v):
    """an iterator value for something iterable"""
    raw = v
    v = D(I, st, v)
    if isinstance(v, tuple):
        if v[0] == 'It': return v
        if v[0] == 'V': return ('It', 'items', v[1])
        if v[0] == 'A' and v[1].endswith('ops::range::Range'):
            lo, hi = v[3]
            if isinstance(lo, int) and isinstance(hi, int) and hi - lo < 4096: return ('It', 'items', tuple(range(lo, hi)))
            return ('It', 'range', lo, hi)
        if v[0] == 'A' and v[1] == OPT: return ('It', 'items', v[3])
        if is_sym(v): return ('It', 'sym', v)
    raise Undecided('iterate over %r' % (v,))
@mre(r"<&'a mut alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter$|core::slice::<impl \[T\]>::iter_mut$")
def itermut(I, st, c, a, ln):
    v = vec(I, st, a[0])
    if v is None:
        return one(st, ('It', 'symmut', a[0]))
    r = a[0]
    return one(st, ('It', 'items', tuple(('&', r[1], r[2] + (('ix', j),)) for j in range(len(v)))))
@mre(r"<(&'a )?alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter$|core::slice::<impl \[T\]>::iter$|IntoIterator for .*::into_iter$|<&'a (mut )?\[T\] as core::iter.*into_iter$")
def iter_(I, st, c, a, ln):
    return one(st, it_of(I, st, a[0]))
@m('core::str::<impl str>::chars')
def chars(I, st, c, a, ln):
    v = D(I, st, a[0])
    if isinstance(v, str): return one(st, ('It', 'items', tuple(('ch', ord(x)) for x in v)))
    if I.hooks.get('model:maps') and all(isinstance(p, str) or p[0] == 'c' for p in pieces(v)):
        return one(st, ('It', 'items', tuple(x for p in pieces(v) for x in ([('ch', ord(y)) for y in p] if isinstance(p, str) else [p[1]]))))
    return one(st, ('It', 'chars', v))
@mre(r'(core::iter::traits::iterator::Iterator|<.* as core::iter::traits::iterator::Iterator>|core::iter::traits::double_ended::DoubleEndedIterator)::(map|filter|rev|enumerate|take_while|skip_while|skip|take|peekable|cloned|copied|zip|chain|by_ref|filter_map|step_by|inspect|flat_map|map_while)$')
def adapt(I, st, c, a, ln):
    nm = c.p.rsplit('::', 1)[-1]
    it = it_of(I, st, a[0])
    arg = a[1] if len(a) > 1 else None
    h = I.hooks.get('model:adapt')
    if h:
        r = h(I, st, nm, it, arg)
        if r is not None: return r
    if it[1] == 'items':
        xs = it[2]
        if nm == 'rev': return one(st, ('It', 'items', tuple(reversed(xs))))
        if nm == 'enumerate': return one(st, ('It', 'items', tuple(('T', (i, x)) for i, x in enumerate(xs))))
        if nm == 'skip' and isinstance(arg, int): return one(st, ('It', 'items', xs[arg:]))
        if nm == 'take' and isinstance(arg, int): return one(st, ('It', 'items', xs[:arg]))
        if nm in ('cloned', 'copied', 'peekable', 'by_ref'): return one(st, it)
        if nm == 'chain':
            o = it_of(I, st, arg)
            if o[1] == 'items': return one(st, ('It', 'items', xs + o[2]))
        if nm == 'zip':
            o = it_of(I, st, arg)
            if o[1] == 'items': return one(st, ('It', 'items', tuple(('T', (x, y)) for x, y in zip(xs, o[2]))))
    if nm in ('cloned', 'copied', 'by_ref'): return one(st, it)
    return one(st, ('It', 'op', nm, it, arg))
def drain(I, st, it):
    """[(state, items)] of an iterator with known items, running adapters; None if symbolic"""
    if it[1] == 'items': return [(st, it[2])]
    if it[1] == 'op':
        nm, inner, arg = it[2], it[3], it[4]
        b = drain(I, st, inner)
        if b is None: return None
        if nm == 'peekable': return b
        out = []
        for s, xs in b:
            if nm == 'rev': out.append((s, tuple(reversed(xs)))); continue
            if nm == 'enumerate': out.append((s, tuple(('T', (i, x)) for i, x in enumerate(xs)))); continue
            if nm == 'skip' and isinstance(arg, int): out.append((s, xs[arg:])); continue
            if nm == 'take' and isinstance(arg, int): out.append((s, xs[:arg])); continue
            if nm in ('map', 'filter', 'take_while', 'skip_while', 'filter_map', 'inspect', 'map_while'):
                work = [(s, 0, (), False)]
                while work:
                    s2, i, acc, stop = work.pop()
                    if i >= len(xs) or stop: out.append((s2, acc)); continue
                    for s3, r in I.call_value(s2, arg, [xs[i]]):
                        if nm == 'map': work.append((s3, i + 1, acc + (r,), False)); continue
                        if nm == 'inspect': work.append((s3, i + 1, acc + (xs[i],), False)); continue
                        if nm in ('filter_map', 'map_while'):
                            for s4, q in I.fork(s3, I.simp_eq(s3, r, none())):
                                if q: work.append((s4, i + 1, acc, nm == 'map_while'))
                                else: work.append((s4, i + 1, acc + (I.fld(r, 1, 0),), False))
                            continue
                        for s4, q in I.fork(s3, r):
                            if nm == 'filter': work.append((s4, i + 1, acc + ((xs[i],) if q else ()), False))
                            elif nm == 'take_while': work.append((s4, i + 1, acc + (xs[i],), False) if q else (s4, i, acc, True))
                            elif nm == 'skip_while':
                                if q: work.append((s4, i + 1, acc, False))
                                else: work.append((s4, len(xs), acc + xs[i:], True))
                continue
            return None
        return out
    if it[1] == 'op2': return None
    return None
def setiter(I, st, ref, it):
    upd(I, st, ref, it)
@mre(r'(Iterator>::next|Iterator::next|Iterator for core::ops::range::Range<A>>::next|Peekable.*::next)$')
def next_(I, st, c, a, ln):
    v = D(I, st, a[0])
    if isinstance(v, tuple) and v[0] == 'A' and v[1].endswith('ops::range::Range'):
        lo, hi = v[3]
        if isinstance(lo, int) and isinstance(hi, int):
            if lo >= hi: return one(st, none())
            upd(I, st, a[0], ('A', v[1], 0, (lo + 1, hi)))
            return one(st, some(lo))
        h = I.hooks.get('model:next')
        if h:
            r = h(I, st, a[0], v, ln)
            if r is not None: return r
        out = []
        for s, b in I.fork(st, lt(lo, hi)):
            if b:
                upd(I, s, a[0], ('A', v[1], 0, (add(lo, 1), hi))); out.append((s, some(lo)))
            else: out.append((s, none()))
        return out
    it = it_of(I, st, a[0])
    h = I.hooks.get('model:next')
    if h:
        r = h(I, st, a[0], it, ln)
        if r is not None: return r
    d = drain(I, st, it)
    if d is not None:
        out = []
        for s, xs in d:
            if not xs: upd(I, s, a[0], ('It', 'items', ())); out.append((s, none()))
            else: upd(I, s, a[0], ('It', 'items', xs[1:])); out.append((s, some(xs[0])))
        return out
    if it[1] == 'chars': return one(st, firstch(I, it[2])) if not isref(a[0]) else next_chars(I, st, a[0], it)
    # the parts of an unknown text: there is always a first one
    if it[1] == 'sym' and isinstance(it[2], tuple) and it[2][0] == 'call' and str(it[2][1]).endswith('split') and isref(a[0]):
        upd(I, st, a[0], ('It', 'parts', it[2]))
        return one(st, some(('call', 'firstpart') + it[2][1:]))
    raise Undecided('next on %r' % (it[:3],))
def next_chars(I, st, ref, it):
    v = it[2]
    o = firstch(I, v)
    ps = pieces(v)
    if isinstance(ps[0], str): upd(I, st, ref, ('It', 'chars', mkS((ps[0][1:],) + ps[1:])) if len(ps) > 1 or len(ps[0]) > 1 else ('It', 'items', ()))
    elif ps[0][0] == 'c': upd(I, st, ref, ('It', 'chars', mkS(ps[1:])))
    else: upd(I, st, ref, ('It', 'chars', ('S', (('rest', v),))))
    return one(st, o)
@mre(r'Peekable::<I>::peek$')
def peek(I, st, c, a, ln):
    it = it_of(I, st, a[0])
    h = I.hooks.get('model:peek')
    if h:
        r = h(I, st, a[0], it, ln)
        if r is not None: return r
    d = drain(I, st, it)
    if d is None: raise Undecided('peek')
    return [(s, some(xs[0]) if xs else none()) for s, xs in d]
def pure(I, st, v): return not any(isref(x) for x in walk(v))
def walk(v):
    yield v
    if isinstance(v, tuple):
        for x in v:
            if isinstance(x, tuple): yield from walk(x)
@mre(r'(core::iter::traits::iterator::Iterator|<.* as core::iter::traits::iterator::Iterator>|core::iter::traits::double_ended::DoubleEndedIterator|<.* as core::iter::traits::exact_size::ExactSizeIterator>)::(collect|count|last|for_each|any|all|position|find|sum|partition|max|min|fold|nth|len|next_back|product|unzip|find_map|rposition|try_for_each)$')
def terminal(I, st, c, a, ln):
    nm = c.p.rsplit('::', 1)[-1]
    it = it_of(I, st, a[0])
    h = I.hooks.get('model:' + nm)
    if h:
        r = h(I, st, c, a, it, ln)
        if r is not None: return r
    arg = a[1] if len(a) > 1 else None
    d = drain(I, st, it)
    if d is None:
        if it[1] == 'chars' and nm == 'last': return one(st, lastch(I, it[2]))
        if it[1] == 'op' and it[2] == 'rev' and it[3][1] == 'chars' and nm == 'last': return one(st, firstch(I, it[3][2]))
        if nm == 'nth' and it[1] == 'chars' and arg == 0: return one(st, firstch(I, it[2]))
        if nm == 'next_back' and it[1] == 'chars': return one(st, lastch(I, it[2]))
        if nm == 'collect' and it[1] == 'op' and it[2] == 'map' and it[3][1] == 'range':
            rs = I.call_value(st, it[4], [('x', 'iter-index')])
            if len(rs) == 1:
                s, v = rs[0]
                if it[3][2] == 0: return one(s, ('S', (('rep', pieces(v), it[3][3]),)))
        if not pure(I, st, it) or arg is not None and not pure(I, st, arg): raise Undecided('%s over a symbolic iterator with captured references' % nm)
        return one(st, ('call', 'it.' + nm, it) + ((arg,) if arg is not None else ()))
    out = []
    for s, xs in d:
        if nm == 'collect':
            ty = c.g[-1] if c.g else ''
            if 'String' in ty and 'Vec' not in ty.split('<')[0]:
                r = ''
                for x in xs:
                    x = D(I, s, x)
                    r = concat(r, ('S', (('c', x),)) if is_sym(x) and 'char' in ' '.join(c.g[:1]) else x)
                out.append((s, r))
            elif ty.startswith('alloc::vec::Vec') or not ty: out.append((s, ('V', xs)))
            else: raise Undecided('collect into ' + ty)
        elif nm in ('count', 'len'): out.append((s, len(xs)))
        elif nm == 'last': out.append((s, some(xs[-1]) if xs else none()))
        elif nm == 'nth' and isinstance(arg, int): out.append((s, some(xs[arg]) if arg < len(xs) else none()))
        elif nm == 'next_back': out.append((s, some(xs[-1]) if xs else none()))
        elif nm == 'for_each':
            ss = [s]
            for x in xs:
                ns = []
                for s2 in ss:
                    ns += [s3 for s3, _ in I.call_value(s2, arg, [x])]
                ss = ns
            out += [(s2, UNIT) for s2 in ss]
        elif nm in ('any', 'all', 'find', 'position'):
            work = [(s, 0)]
            while work:
                s2, i = work.pop()
                if i >= len(xs):
                    out.append((s2, False if nm == 'any' else True if nm == 'all' else none())); continue
                for s3, r in I.call_value(s2, arg, [xs[i]]):
                    for s4, b in I.fork(s3, r):
                        if nm == 'any' and b: out.append((s4, True))
                        elif nm == 'all' and not b: out.append((s4, False))
                        elif nm == 'find' and b: out.append((s4, some(xs[i])))
                        elif nm == 'position' and b: out.append((s4, some(i)))
                        else: work.append((s4, i + 1))
        elif nm == 'partition':
            work = [(s, 0, (), ())]
            while work:
                s2, i, x, y = work.pop()
                if i >= len(xs): out.append((s2, ('T', (('V', x), ('V', y))))); continue
                for s3, r in I.call_value(s2, arg, [xs[i]]):
                    for s4, b in I.fork(s3, r):
                        work.append((s4, i + 1, x + ((xs[i],) if b else ()), y + (() if b else (xs[i],))))
        elif nm == 'fold':
            work = [(s, 0, a[1])]
            while work:
                s2, i, acc = work.pop()
                if i >= len(xs): out.append((s2, acc)); continue
                for s3, r in I.call_value(s2, a[2], [acc, xs[i]]): work.append((s3, i + 1, r))
        else: raise Undecided(nm)
    return out

# ---------------- maps and the environment: symbolic unless a check installs a hook
@mre(r'std::collections::hash::map::HashMap::<K, V(, S, A)?>::get$|phf::map::Map::<K, V>::get$')
def hget(I, st, c, a, ln):
    mp = D(I, st, a[0]); k = D(I, st, a[1])
    if isinstance(mp, tuple) and mp[0] == 'M':
        for s2, i, v in mfind(I, st, mp, k):
            return one(s2, some(v) if i is not None else none())
    if mp == ('x', 'c2b'):
        h = I.hooks.get('model:c2b')
        if h: return one(st, some(h(k)))
        return one(st, some(bp(k)))
    return one(st, ('call', 'mapget', mp, k))
def bp(k): return 0 if k == 0 else ('bp', k)
@mre(r'std::collections::hash::map::HashMap::<K, V(, S)?>::new$|HashMap.*Default>::default$')
def hnew(I, st, c, a, ln): return one(st, ('x', 'newmap') if not I.hooks.get('model:maps') else ('M', ()))
def mfind(I, st, mp, k):
    """maps with known keys"""
    for i, (k2, v) in enumerate(mp[1]):
        if k2 == k: return [(st, i, v)]
        if not (isinstance(k, int) and isinstance(k2, int)): raise Undecided('map key')
    return [(st, None, None)]
HM = r'std::collections::(hash::map::HashMap|btree::map::BTreeMap)::<K, V(, \w+)*>::'
@mre(r'(std|alloc)::collections::(hash::map::HashMap|btree::map::BTreeMap)::<K, V(, \w+)*>::(insert|entry|contains_key|len|is_empty|with_capacity|with_capacity_and_hasher|reserve|clear|get_or_insert_with)$')
def hops(I, st, c, a, ln):
    nm = c.r.rsplit('::', 1)[-1]
    if nm.startswith('with_capacity'): return hnew(I, st, c, a, ln)
    mp = D(I, st, a[0])
    if not (isinstance(mp, tuple) and mp[0] == 'M'): return one(st, ('call', nm, mp) + tuple(D(I, st, x) for x in a[1:])) if nm in ('contains_key', 'len', 'is_empty') else undec(nm)
    if nm == 'len': return one(st, len(mp[1]))
    if nm == 'is_empty': return one(st, not mp[1])
    if nm == 'reserve': return one(st, UNIT)
    if nm == 'clear': upd(I, st, a[0], ('M', ())); return one(st, UNIT)
    k = D(I, st, a[1])
    if nm == 'entry': return one(st, ('A', 'mapentry', 0, (a[0], k)))
    (s, i, v), = mfind(I, st, mp, k)
    if nm == 'contains_key': return one(s, i is not None)
    v2 = D(I, s, a[2])
    upd(I, s, a[0], ('M', mp[1] + ((k, v2),) if i is None else mp[1][:i] + ((k, v2),) + mp[1][i + 1:]))
    return one(s, none() if i is None else some(v))
def undec(m): raise Undecided(m)
@mre(r'(std|alloc)::collections::(hash::map|btree::map::entry)::Entry::<.*>::(or_insert|or_insert_with|or_default|and_modify|insert_entry)$')
def hentry(I, st, c, a, ln):
    nm = c.r.rsplit('::', 1)[-1]
    e = a[0]
    if not (isinstance(e, tuple) and e[:2] == ('A', 'mapentry')) or nm not in ('or_insert', 'or_insert_with'): raise Undecided(nm)
    ref, k = e[3]
    mp = D(I, st, ref)
    (s, i, v), = mfind(I, st, mp, k)
    if i is not None: return one(s, v)
    if nm == 'or_insert': rs = [(s, D(I, s, a[1]))]
    else: rs = I.call_value(s, a[1], [])
    for s2, v2 in rs: upd(I, s2, ref, ('M', mp[1] + ((k, v2),)))
    return rs
# chars
@mre(r'core::char::methods::<impl char>::(is_\w+)$|core::num::<impl u8>::(is_ascii\w*)$')
def chpred(I, st, c, a, ln):
    nm = c.r.rsplit('::', 1)[-1]
    v = D(I, st, a[0])
    f = CHP.get(nm)
    if f is None: return one(st, ('b', nm, v))
    if v[0] == 'ch': return one(st, bool(f(v)))
    return one(st, mkpred(nm, f, v))
def _asc(p): return lambda x: x[1] < 128 and p(chr(x[1]))
CHP = {
    'is_ascii_digit': _asc(lambda s: s.isdigit()), 'is_ascii_alphabetic': _asc(lambda s: s.isalpha()),
    'is_ascii_alphanumeric': _asc(lambda s: s.isalnum()), 'is_ascii_hexdigit': _asc(lambda s: s in '0123456789abcdefABCDEF'),
    'is_ascii_whitespace': _asc(lambda s: s in ' \t\n\r\x0c'), 'is_ascii': lambda x: x[1] < 128,
    'is_alphabetic': lambda x: chr(x[1]).isalpha(), 'is_alphanumeric': lambda x: chr(x[1]).isalnum(),
    'is_whitespace': lambda x: chr(x[1]).isspace(), 'is_numeric': lambda x: chr(x[1]).isnumeric(),
    'is_ascii_uppercase': _asc(lambda s: s.isupper()), 'is_ascii_lowercase': _asc(lambda s: s.islower()),
    'is_ascii_punctuation': _asc(lambda s: s in '!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~'),
}
@mre(r'core::char::methods::<impl char>::(is_digit)$')
def isdigit(I, st, c, a, ln):
    v = D(I, st, a[0]); r = a[1]
    f = lambda x: x[1] < 128 and chr(x[1]).isalnum() and (int(chr(x[1]), 36) < r)
    return one(st, bool(f(v)) if v[0] == 'ch' else mkpred('is_digit%s' % r, f, v))
EXACT['core::char::methods::<impl char>::is_digit'] = isdigit
@m('core::char::methods::<impl char>::to_ascii_lowercase', 'core::char::methods::<impl char>::to_ascii_uppercase')
def tolow(I, st, c, a, ln):
    v = D(I, st, a[0])
    if v[0] == 'ch':
        s = chr(v[1]); return one(st, ('ch', ord(s.lower() if 'lower' in c.r else s.upper())) if v[1] < 128 else v)
    d = st.facts.get(v)
    if d and d[0] == 'in':
        out = []
        for x in d[1]:
            s = st.copy(); s.restrict_in(v, [x])
            ch = chr(x[1])
            out.append((s, ('ch', ord(ch.lower() if 'lower' in c.r else ch.upper())) if x[1] < 128 else x))
        return out
    return one(st, ('call', c.r, v))
@mre(r'^<alloc::string::String as core::iter::traits::collect::Extend<(char|&\'\w+ char|&\'\w+ str|alloc::string::String)>>::extend$')
def sextend(I, st, c, a, ln):
    it = it_of(I, st, a[1])
    ch = 'char' in c.r
    d = drain(I, st, it)
    if d is None:
        if it[1] == 'op' and it[2] == 'map' and it[3][1] == 'range' and it[3][2] == 0:
            rs = I.call_value(st, it[4], [('x', 'iter-index')])
            if len(rs) == 1:
                s, v = rs[0]; append(I, s, a[0], ('S', (('rep', pieces(v), it[3][3]),))); return one(s, UNIT)
        raise Undecided('extend')
    out = []
    for s, xs in d:
        for x in xs:
            x = D(I, s, x)
            append(I, s, a[0], ('S', (('c', x),)) if is_sym(x) and ch else x)
        out.append((s, UNIT))
    return out
