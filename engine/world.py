"""What the program does to the outside: file system, standard streams, arguments, pattern matching. Effects are recorded in order on each path;
every operation that can fail is followed both ways."""
import os, sys
from ai import *
from models import upd, isref, D, one
import models, regx

FX = 'fx'
def fx(st): return st.heap.get(FX, ())
def emit(st, *e): st.heap[FX] = fx(st) + (tuple(e),)
def sym(name, *a): return ('call', name) + tuple(a)
UNIT = ('T', ())

def groups(pat):
    """{group: does it take part in every match}; None for a pattern that is not well formed"""
    import re._parser as sp, re
    try: t = sp.parse(pat)
    except re.error: return None
    out = {}
    def go(sub, sure):
        for op, av in sub:
            n = str(op)
            if n == 'SUBPATTERN':
                if av[0]: out[av[0]] = sure
                go(av[3], sure)
            elif n == 'BRANCH':
                for b in av[1]: go(b, False)
            elif n in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'): go(av[2], sure and av[0] > 0)
    go(t, True)
    return out

class World:
    def __init__(self, prog, extra=None, budget=4000000, dir_items=2):
        self.prog = prog
        self.dir_items = dir_items
        h = {}
        def reg(*names):
            def d(f):
                for n in names: h[n] = f
                return f
            return d
        def fallible(name, effect=None, value=None):
            def f(I, st, c, a, ln):
                args = tuple(D(I, st, x) for x in a)
                if effect: emit(st, effect, *args)
                v = value(args) if value else sym(name, *args)
                return [(s, r) for s, r in self.split(I, st, ('ok', name) + args, ok(v), err(sym(name + '!', *args)))]
            return f
        def pure(name):
            def f(I, st, c, a, ln): return one(st, sym(name, *[D(I, st, x) for x in a]))
            return f
        def pred(name):
            def f(I, st, c, a, ln): return one(st, ('b', name) + tuple(D(I, st, x) for x in a))
            return f
        h['std::fs::read_to_string'] = fallible('file_text', 'read')
        h['std::fs::read'] = fallible('file_bytes', 'read')
        h['std::fs::write'] = fallible('fs::write', 'write', lambda a: UNIT)
        h['std::fs::canonicalize'] = fallible('canonical')
        h['std::path::Path::canonicalize'] = h['std::fs::canonicalize']
        h['std::fs::metadata'] = fallible('metadata'); h['std::path::Path::metadata'] = h['std::fs::metadata']
        for n in ('remove_file', 'remove_dir', 'remove_dir_all', 'create_dir', 'create_dir_all', 'copy', 'rename', 'hard_link', 'set_permissions'):
            h['std::fs::' + n] = fallible('fs::' + n, 'fs', None)
        for n in ('open', 'create', 'create_new'): h['std::fs::File::' + n] = fallible('File::' + n, 'fs' if n != 'open' else 'open')
        @reg('std::fs::read_dir', 'std::path::Path::read_dir')
        def read_dir(I, st, c, a, ln):
            p = D(I, st, a[0])
            out = []
            for s, good in self.choose(I, st, ('readdir', p), [None] + list(range(self.dir_items + 1))):
                if good is None: out.append((s, err(sym('readdir!', p))))
                else: out.append((s, ok(('It', 'items', tuple(sym('entry', p, i) for i in range(good))))))
            return out
        h['std::fs::DirEntry::path'] = pure('path')
        h['std::fs::DirEntry::file_name'] = lambda I, st, c, a, ln: one(st, sym('entry_name', sym('path', D(I, st, a[0]))))
        for n in ('is_dir', 'is_file', 'exists', 'is_symlink'):
            h['std::path::Path::' + n] = pred(n); h['std::fs::Metadata::' + n] = pred(n)
        for n in ('extension', 'file_name', 'parent', 'file_stem'): h['std::path::Path::' + n] = pure(n)
        h['std::path::PathBuf::pop'] = NotImplementedHook
        h['std::path::Path::display'] = lambda I, st, c, a, ln: one(st, D(I, st, a[0]))
        h['std::path::Path::to_string_lossy'] = pure('lossy')
        h['std::ffi::os_str::OsStr::to_string_lossy'] = pure('lossy')
        h['std::ffi::os_str::OsStr::to_str'] = pure('to_str')
        h['std::path::Path::to_str'] = pure('to_str')
        for n in ("alloc::borrow::Cow::<'_, B>::into_owned", 'std::path::Path::to_path_buf', 'std::path::PathBuf::into_os_string', 'std::path::Path::new', 'std::path::PathBuf::as_path',
                  'std::path::PathBuf::from', 'std::path::Path::as_os_str'):
            h[n] = lambda I, st, c, a, ln: one(st, D(I, st, a[0]))
        h['alloc::io::error::<impl core::io::error::Error>::new'] = pure('ioerror'); h['std::io::error::Error::new'] = pure('ioerror')
        h['std::io::stdio::stdin'] = lambda I, st, c, a, ln: one(st, ('x', 'stdin'))
        @reg('<std::io::stdio::Stdin as alloc::io::read::Read>::read_to_string', '<std::io::stdio::Stdin as std::io::Read>::read_to_string',
             "<std::io::stdio::StdinLock<'_> as alloc::io::read::Read>::read_to_string", 'alloc::io::read::Read::read_to_string')
        def rts(I, st, c, a, ln):
            emit(st, 'stdin')
            out = []
            for s, good in self.choose(I, st, ('ok', 'stdin'), [True, False]):
                if good: upd(I, s, a[1], concat(D(I, s, a[1]), ('S', (('t', ('x', 'stdin_text')),)))); out.append((s, ok(('x', 'n'))))
                else: out.append((s, err(sym('stdin!'))))
            return out
        for n in ('sort', 'sort_unstable', 'dedup'): h['alloc::slice::<impl [T]>::' + n] = lambda I, st, c, a, ln: one(st, UNIT)
        h['core::slice::<impl [T]>::sort_unstable'] = h['alloc::slice::<impl [T]>::sort']
        h['std::process::exit'] = lambda I, st, c, a, ln: (emit(st, 'exit', D(I, st, a[0])), [])[1]
        def rnew(I, st, c, a, ln):
            p = D(I, st, a[0])
            return one(st, err(('x', 'bad pattern')) if isinstance(p, str) and groups(p) is None else ok(('A', 'rx', 0, (p,))))
        h['regex::regex::string::Regex::new'] = rnew
        @reg('regex::regex::string::Regex::captures_iter', 'regex::regex::string::Regex::captures')
        def caps(I, st, c, a, ln):
            rx, s = D(I, st, a[0]), D(I, st, a[1])
            pat = rx[3][0]
            if not isinstance(pat, str): raise Undecided('pattern')
            it = c.r.endswith('captures_iter')
            out = []
            for s2, b in self.split_lang(I, st, s, regx.lang(pat)):
                v = ('A', 'caps', 0, (pat, s))
                out.append((s2, ('It', 'items', (v,)) if b and it else ('It', 'items', ()) if it else some(v) if b else none()))
            return out
        @reg('regex::regex::string::Regex::is_match')
        def ism(I, st, c, a, ln):
            rx, s = D(I, st, a[0]), D(I, st, a[1])
            return self.split_lang(I, st, s, regx.lang(rx[3][0]))
        @reg("<regex::regex::string::Captures<'h> as core::ops::index::Index<usize>>::index")
        def cix(I, st, c, a, ln):
            cp, i = D(I, st, a[0]), D(I, st, a[1])
            g = groups(cp[3][0])
            if g is not None and isinstance(i, int) and i and g.get(i) is not True:
                if i not in g: I.panic(st, I.stack[-1], ln, 'no such group'); return []
                I.undet(ln, 'group %d may be missing' % i)
            return one(st, cp[3][1] if i == 0 else ('call', 'grp', cp[3][0], i, cp[3][1]))
        def eqh(I, st, c, a, ln):
            x, y = D(I, st, a[0]), D(I, st, a[1])
            if isinstance(x, str): x, y = y, x
            if not isinstance(y, str): return None
            ne = (c.p or c.r).endswith('::ne')
            if isinstance(x, tuple) and x[:2] == ('call', 'grp') and self.lang_of(st, x[4]) is not None:
                return [(s, b != ne) for s, b in self.split_lang(I, st, x[4], regx.group_is(x[2], x[3], y))]
            if self.lang_of(st, x) is not None:
                return [(s, b != ne) for s, b in self.split_lang(I, st, x, regx.word(y))]
            return None
        h['model:eq'] = eqh
        for n, mk in (('starts_with', lambda p: [regx.any_()] and p), ('ends_with', None)):
            def g(I, st, c, a, ln, n=n):
                x, p = D(I, st, a[0]), D(I, st, a[1])
                if self.lang_of(st, x) is None: return NotImplemented
                if isinstance(p, tuple) and p[0] == 'ch': p = chr(p[1])
                if not isinstance(p, str): return NotImplemented
                import re as _re
                return self.split_lang(I, st, x, regx.lang('^' + esc(p)) if n == 'starts_with' else regx.lang(esc(p) + '$'))
            h['core::str::<impl str>::' + n] = g
        def pr(I, st, name, x): emit(st, name, x)
        h['model:print'] = pr
        if extra: h.update(extra)
        self.I = Interp(prog, h, budget=budget); self.I.nomerge = True
    # -- choices
    def split(self, I, st, term, a, b):
        return [(s, a if x else b) for s, x in self.choose(I, st, term, [True, False])]
    def choose(self, I, st, term, vals):
        """the outcome of asking the outside world `term`: the same each time it is asked on a path"""
        k = ('world', term)
        if k in st.heap: return [(st, st.heap[k])]
        out = []
        for v in vals:
            s = st.copy(); s.heap[k] = v; out.append((s, v))
        return out
    def lang_of(self, st, x):
        if isinstance(x, tuple) and x[0] == 'S' and len(x[1]) == 1 and x[1][0][0] == 't': x = x[1][0][1]
        try: return st.heap.get(('lang', x))
        except TypeError: return None
    def split_lang(self, I, st, x, L):
        """does the unknown string x belong to L"""
        if isinstance(x, str):
            return [(st, not (regx.word(x) & L).empty())]
        if isinstance(x, tuple) and x[0] == 'S' and len(x[1]) == 1 and x[1][0][0] == 't': x = x[1][0][1]
        if not is_sym(x): raise Undecided('match on %r' % (x,))
        S = st.heap.get(('lang', x)) or regx.any_()
        out = []
        for b, T in ((True, S & L), (False, S - L)):
            if T.empty(): continue
            s = st.copy(); s.heap[('lang', x)] = T; out.append((s, b))
        return out
    def run(self, key, args, st=None):
        return self.I.run(st or St(), key, args)
def esc(p): return ''.join('\\' + c if not (c.isalnum() or c in '_ ') else c for c in p)
def NotImplementedHook(I, st, c, a, ln): raise Undecided(c.r)
