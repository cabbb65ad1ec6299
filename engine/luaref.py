"""Reference automata: the lexical rules of Lua 5.3 (manual section 3.1), and the text between two tokens.

step(state, code) -> new state, ('token', state) when a token starts with this character, or None when no valid Lua text continues this way
(what the code does with it is then not constrained), or ('over',) when the character does not belong to the token any more.
"""
KEYWORDS = 'and break do else elseif end false for function goto if in local nil not or repeat return then true until while'.split()
PREFIX = set(k[:i] for k in KEYWORDS for i in range(1, len(k) + 1))
OPS = ['+', '-', '*', '/', '%', '^', '#', '&', '~', '|', '<<', '>>', '//', '==', '~=', '<=', '>=', '<', '>', '=', '(', ')', '{', '}', '[', ']', '::', ';', ':', ',', '.', '..', '...']
OPPRE = set(o[:i] for o in OPS for i in range(1, len(o) + 1))
BLANK = ' \t\n\r\x0b\x0c'
LMAX = 2        # long brackets with up to this many equals signs, and up to one more after a closing bracket inside them, are followed
DIG = '0123456789'; XDIG = DIG + 'abcdefABCDEF'
def alpha(c): return c.isascii() and (c.isalpha() or c == '_')

class Lua:
    """one call of the Lua lexer: blanks and comments, then one token"""
    start = ('ws',)
    def step(self, st, n):
        q = self.step_(st, chr(n) if n >= 0 else None)
        return q
    def step_(self, st, c):
        k = st[0]
        if k == 'cr': return ('token', ('crname',)) if c == 'x' else None     # a short comment that a lone CR ended: only `--CRx` is followed
        if k == 'crname': return None
        if k == 'ws':
            if c in BLANK: return st
            if alpha(c): return ('token', ('name', c if c in PREFIX else None))
            if c in DIG: return ('token', ('num', 'zero' if c == '0' else 'i'))
            if c in '"\'': return ('token', ('str', c, ''))
            if c in OPPRE: return ('token', ('op', c))
            return None
        if k == 'op':
            o = st[1]
            if o == '-' and c == '-': return ('cmt', 'start')
            if o == '.' and c in DIG: return ('num', '.d')
            if o == '[' and c in '[=': return ('long', 0, 'text', 0) if c == '[' else ('lopen', 1)
            if o == '#' and c == '!': return ('bang',)
            if o + c in OPPRE and o != '[': return ('op', o + c)
            return ('over',)
        if k == 'bang': return ('banged',) if c == '\n' else st
        if k in ('banged', 'strend', 'longend', 'over'): return ('over',)
        if k == 'name':
            if alpha(c) or c in DIG:
                w = st[1] + c if st[1] else None
                return ('name', w if w in PREFIX else None)
            return ('over',)
        if k == 'num': return self.num(st[1], c)
        if k == 'str':
            q, m = st[1], st[2]
            if m == '':
                if c == q: return ('strend', q)
                if c == '\\': return ('str', q, '\\')
                return None if c in '\n\r' else st
            if m == '\\':
                if c == 'z': return ('str', q, 'z')
                if c == '\r': return ('str', q, 'r')
                if c == '\n': return ('str', q, 'n')
                return ('str', q, '')
            if m == 'r' and c == '\n' or m == 'n' and c == '\r': return ('str', q, '')
            if m == 'z' and c in BLANK: return st
            return self.step_(('str', q, ''), c)
        if k == 'lopen':
            if c == '=': return ('lopen', st[1] + 1) if st[1] < LMAX else None
            if c == '[': return ('long', st[1], 'text', 0)
            return None                   # not valid Lua
        if k == 'long': return self.long(st, c, ('longend', st[1]))
        if k == 'cmt':
            m = st[1]
            if m == 'start' and c == '[': return ('cmt', 'open', 0)
            if m == 'open':
                if c == '=':
                    return ('cmt', 'open', st[2] + 1) if st[2] < LMAX else None
                if c == '[': return ('clong', st[2], 'text', 0)
            if m == 'r':                  # CR read: with LF one line end, otherwise the comment is over
                if c == '\n': return ('ws',)
                return self.step_(('cr',), c)
            if c == '\n': return ('ws',)
            if c == '\r': return ('cmt', 'r')
            return ('cmt', 'text')
        if k == 'clong': return self.long(st, c, ('ws',))
        raise Exception(st)
    def long(self, st, c, end):
        k, lv, m, n = st
        if m == 'text': return (k, lv, ']', 0) if c == ']' else st
        if c == ']': return end if n == lv else (k, lv, ']', 0)
        if c == '=': return (k, lv, ']', n + 1) if n <= LMAX else None
        return (k, lv, 'text', 0)
    def num(self, v, c):
        """Lua 5.3's read_numeral takes hexadecimal digits, '.', and an exponent mark with its sign"""
        hexa = v[0] == 'x'
        if v == 'zero' and c in 'xX': return ('num', 'x')
        if v == 'zero': v = 'i'
        mark = c in ('pP' if hexa else 'eE')
        if v in ('e', 'xp') and c in '+-': return ('num', v + 's')
        if not (c in XDIG or c == '.' or mark): return ('over',)
        if hexa:
            if v in ('x', 'xd', 'x.', 'x.d') and c in XDIG: n = {'x': 'xd', 'xd': 'xd', 'x.': 'x.d', 'x.d': 'x.d'}[v]
            elif v in ('x', 'xd') and c == '.': n = 'x.' if v == 'x' else 'x.d'
            elif v in ('xd', 'x.d') and mark: n = 'xp'
            elif v in ('xp', 'xps', 'xpd') and c in DIG: n = 'xpd'
            else: return None
        else:
            if v in ('i', '.d') and c in DIG: n = v
            elif v == 'i' and c == '.': n = '.d'
            elif v in ('i', '.d') and mark: n = 'e'
            elif v in ('e', 'es', 'ed') and c in DIG: n = 'ed'
            else: return None
        return ('num', n)
    def final(self, st):
        """what the characters read so far are, if the token ends here: (kind, ...) or None when they are not a complete token, 'bad' when unfinished"""
        k = st[0]
        if k == 'crname': return ('crname',)
        if k == 'ws': return ('none',)
        if k == 'op': return ('op', st[1]) if st[1] in OPS else 'bad'
        if k == 'name': return ('kw', st[1]) if st[1] in KEYWORDS else ('name',)
        if k == 'num': return ('num',) if st[1] in ('zero', 'i', '.d', 'ed', 'xd', 'x.d', 'xpd') else 'bad'
        if k == 'strend': return ('str', st[1])
        if k == 'longend': return ('long', st[1])
        if k in ('bang', 'banged'): return ('bang', int(k == 'banged'))
        if k == 'cmt': return ('none',)
        return 'bad'
    unfinished = ('str', 'long', 'clong')
    def kind(self, fin):
        """the grammar's name of the token, and the parts of its text (offset from the start, offset from the end) it carries"""
        k = fin[0]
        if k in ('op', 'kw'): return fin[1], []
        if k == 'name': return 'LexVariable', [(0, 0)]
        if k == 'num': return 'Numeral', [(0, 0)]
        if k == 'str': return ('NormalStringLiteral' if fin[1] == '"' else 'CharStringLiteral'), [(1, 1)]
        if k == 'long': return 'MultiLineStringLiteral', [fin[1], (fin[1] + 2, fin[1] + 2)]
        if k == 'bang': return 'SheBang', [(0, fin[1])]
        return None, []
    def kinds(self):
        return OPS + KEYWORDS + ['LexVariable', 'Numeral', 'NormalStringLiteral', 'CharStringLiteral'] + [('long', i) for i in range(LMAX + 1)]

class Comments:
    """one call of the comment lexer, on the text between two tokens: blanks, then a line break or a comment"""
    start = ('ws',)
    unfinished = ('clong',)
    long = Lua.long
    def step(self, st, n):
        c = chr(n) if n >= 0 else None; k = st[0]
        if k == 'ws':
            if c == '\n': return ('token', ('nl',))
            if c in BLANK: return st
            return ('token', ('dash',)) if c == '-' else None
        if k == 'dash': return ('cmt', 'start') if c == '-' else None
        if k == 'cmt':
            m = st[1]
            if m == 'start' and c == '[': return ('cmt', 'open', 0)
            if m == 'open':
                if c == '=': return ('cmt', 'open', st[2] + 1) if st[2] < LMAX else None
                if c == '[': return ('clong', st[2], 'text', 0)
            return ('cend',) if c == '\n' else ('cmt', 'text')
        if k == 'clong': return self.long(st, c, ('clongend', st[1]))
        return ('over',)
    def final(self, st):
        k = st[0]
        if k == 'ws': return ('none',)
        if k == 'nl': return ('nl',)
        if k == 'cend': return ('one', 1)
        if k == 'cmt': return ('one', 0)
        if k == 'clongend': return ('many', st[1])
        return 'bad'
    def kind(self, fin):
        if fin[0] == 'nl': return '\\n', []
        if fin[0] == 'one': return 'OneLineComment', [(2, fin[1])]
        if fin[0] == 'many': return 'MultiLineComment', [fin[1], (fin[1] + 4, fin[1] + 2)]
        return None, []
    def kinds(self): return ['\\n', 'OneLineComment'] + [('many', i) for i in range(LMAX + 1)]
