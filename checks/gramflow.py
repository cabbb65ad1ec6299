"""Language inclusion between a reference grammar of Lua 5.3 and the grammar of the generated parser.

A pair (A, B) of a reference and a parser symbol is kept while every production of A is matched by a sentential form that B derives, symbol by symbol: equal
terminals, or nonterminals that are a kept pair.  By induction on derivations, L(A) is contained in L(B) for every pair that remains.  If the start symbols are not
a pair in the end, short reference programs are searched for one that the parser's grammar does not derive."""
import itertools
REF = r'''
Chunk : eof | SB eof | Block eof | SB Block eof
SB : shebang
Block : Stats | Ret | Stats Ret
Ret : return | return ExpList | return ; | return ExpList ;
Stats : StatP | StatP Units | Units
Units : Unit | Units Unit
Unit : Stat0 | Stat1 | Stat0 StatP
Stat0 : ; | :: name :: | break | goto name | do end | do Block end | while Exp do end | while Exp do Block end | if Exp then end | if Exp then Block end | if Exp then Elseifs end | if Exp then Block Elseifs end | if Exp then else end | if Exp then Block else end | if Exp then else Block end
 | if Exp then Block else Block end | if Exp then Elseifs else end | if Exp then Block Elseifs else end | if Exp then Elseifs else Block end | if Exp then Block Elseifs else Block end
 | for name = Exp , Exp do end | for name = Exp , Exp do Block end | for name = Exp , Exp , Exp do end | for name = Exp , Exp , Exp do Block end
 | for NameList in ExpList do end | for NameList in ExpList do Block end | function FuncName FuncBody | local function name FuncBody | local NameList
Elseifs : Elseif | Elseifs Elseif
Elseif : elseif Exp then | elseif Exp then Block
Stat1 : CallN | VarListN = ExpList | repeat until Exp | repeat Block until Exp | local NameList = ExpList
StatP : CallP | VarListP = ExpList
CallN : name SufCall
CallP : ( Exp ) SufCall
SufCall : Args | : name Args | Suffixes Args | Suffixes : name Args
Suffixes : Suffix | Suffixes Suffix
Suffix : Args | : name Args | [ Exp ] | . name
SufVar : [ Exp ] | . name | Suffixes [ Exp ] | Suffixes . name
VarN : name | name SufVar
VarP : ( Exp ) SufVar
Var : name | name SufVar | ( Exp ) SufVar
VarListN : VarN | VarN , VarTail
VarListP : VarP | VarP , VarTail
VarTail : Var | Var , VarTail
ExpList : Exp | Exp , ExpList
NameList : name | name , NameList
FuncName : Dotted | Dotted : name
Dotted : name | name . Dotted
FuncBody : ( ) end | ( ) Block end | ( ParList ) end | ( ParList ) Block end
ParList : name | ... | name , ParList
Args : ( ) | ( ExpList ) | Table | Str
Table : { } | { Fields }
Fields : Field | Field Sep | Field Sep Fields
Sep : , | ;
Field : [ Exp ] = Exp | name = Exp | Exp
Str : string | charstring | longstring
Exp : E1 | Exp or E1
E1 : E2 | E1 and E2
E2 : E3 | E2 < E3 | E2 > E3 | E2 <= E3 | E2 >= E3 | E2 == E3 | E2 ~= E3
E3 : E4 | E3 bar E4
E4 : E5 | E4 ~ E5
E5 : E6 | E5 & E6
E6 : E7 | E6 << E7 | E6 >> E7
E7 : E8 | E7 .. E8
E8 : E9 | E8 + E9 | E8 - E9
E9 : E10 | E9 * E10 | E9 / E10 | E9 // E10 | E9 % E10
E10 : E11 | - E11
E11 : not E10 | # E10 | ~ E10 | E12
E12 : Simple | E12 ^ PowR
PowR : PowS | - PowS
PowS : not PowR | # PowR | ~ PowR | Simple
Simple : nil | false | true | number | Str | ... | function FuncBody | Prefix | Table
Prefix : Var | CallX | ( Exp )
CallX : name SufCall | ( Exp ) SufCall
'''
# valid programs outside the reference grammar above: (what, kind, tokens)
EXTRA = [('a minus sign follows a minus sign', 'return - - name'), ('a minus sign follows a minus sign', 'return name - - - number'), ('a minus sign follows a minus sign', 'return name ^ - - number')]
for s, nm in (('name =', 'an assignment'), ('local name =', 'a local declaration'), ('repeat until', 'repeat')):
    for e in ('number', 'string', 'nil', 'true', '...', '{ }', 'function ( ) end', 'name + number'):
        EXTRA.append(('a statement begins with ( after %s that ends in a value that cannot be called' % nm, '%s %s ( name ) ( )' % (s, e)))
COMMENTS = r'''
Chunk : eof | V eof
V : A1 | A2
A1 : CL | H1 | H1 CL
A2 : NL | H2 | H2 NL
H1 : CL NL | H1 CL NL
H2 : NL CL | H2 NL CL
CL : C | CL C
NL : N | NL N
C : one | long
N : nl
'''
NAMES = {'name': 'Variable', 'number': 'Numeral', 'string': 'NormalStringLiteral', 'charstring': 'CharStringLiteral', 'longstring': 'MultiLineStringLiteral', 'shebang': 'SheBang', 'eof': 'EOF',
         'one': 'OneLineComment', 'long': 'MultiLineComment', 'nl': 'NewLine'}
def parse(text):
    G = {}
    for line in text.replace('\n |', ' |').strip().split('\n'):
        l, r = line.split(' : ', 1)
        G[l] = [tuple('|' if s == 'bar' else s for s in alt.split()) for alt in r.split(' | ')]
    return G
def term(I, t):
    """the parser's terminal for a reference terminal"""
    if t in NAMES:
        k = [x for x, v in I.varname.items() if v == NAMES[t]]
        return k[0] if len(k) == 1 else None
    q = '"%s"' % t
    return q if q in I.varname else None

class Impl:
    def __init__(self, G):
        self.P = {n: sorted(set(tuple(p.rhs) for p in ps)) for n, ps in G.nts.items()}
        self.start = G.start
        self.null = set(); ch = True
        while ch:
            ch = False
            for n, ps in self.P.items():
                if n not in self.null and any(all(s in self.null for s in p) for p in ps): self.null.add(n); ch = True
    def derives(self, B, form, matches):
        """does B derive (in one step or more) a form whose symbols match `form` one by one?  matches(y, x): may parser symbol y stand for form symbol x"""
        n = len(form)
        sets = [dict() for _ in range(n + 1)]
        # Earley items: (nt, rhs, dot, origin)
        def add(i, it):
            if it not in sets[i]: sets[i][it] = 1; return True
            return False
        for p in self.P[B]: add(0, (B, p, 0, 0))
        done = [set() for _ in range(n + 1)]
        for i in range(n + 1):
            work = list(sets[i])
            while work:
                it = work.pop()
                nt, p, d, o = it
                if d == len(p):
                    if (nt, o) in done[i]: continue
                    done[i].add((nt, o))
                    for it2 in list(sets[o]):
                        if it2[2] < len(it2[1]) and it2[1][it2[2]] == nt:
                            z = (it2[0], it2[1], it2[2] + 1, it2[3])
                            if add(i, z): work.append(z)
                    continue
                y = p[d]
                if i < n and matches(y, form[i]): add(i + 1, (nt, p, d + 1, o))
                if y in self.P:
                    for q in self.P[y]:
                        z = (y, q, 0, i)
                        if add(i, z): work.append(z)
                    if y in self.null:
                        z = (nt, p, d + 1, o)
                        if add(i, z): work.append(z)
        return any(it[0] == B and it[2] == len(it[1]) and it[3] == 0 for it in sets[n])

def simulate(R, I, T, start):
    """the greatest set of pairs (reference nonterminal, parser nonterminal) that simulate each other's productions"""
    # which pairs are even worth a try: by first terminals
    def first(P, isnt):
        F = {n: set() for n in P}; ch = True
        while ch:
            ch = False
            for n, ps in P.items():
                for p in ps:
                    for s in p[:1]:
                        a = F[s] if s in P else {s}
                        if not a <= F[n]: F[n] |= a; ch = True
        return F
    FR = first({n: [tuple(T.get(s, s) for s in p) for p in ps] for n, ps in R.items()}, R)
    FI = first(I.P, I.P)
    pairs = {(a, b) for a in R for b in I.P if FR[a] <= FI[b]}
    tried = 0; ch = True
    while ch:
        ch = False
        for a, b in sorted(pairs):
            for p in R[a]:
                form = [T.get(s, s) for s in p]
                tried += 1
                if len(form) == 1 and form[0] in R and (form[0], b) in pairs: continue
                if not I.derives(b, form, lambda y, x: y == x if x not in R else (x, y) in pairs):
                    pairs.discard((a, b)); ch = True; break
    return pairs, tried

def minimal(R):
    """shortest yield of every nonterminal"""
    M = {}; ch = True
    while ch:
        ch = False
        for n, ps in R.items():
            for p in ps:
                if all(s in M or s not in R for s in p):
                    y = [t for s in p for t in (M[s] if s in R else [s])]
                    if n not in M or len(y) < len(M[n]): M[n] = y; ch = True
    return M
def contexts(R, M, start):
    """a shortest program around every nonterminal"""
    C = {start: ([], [])}; work = [start]
    while work:
        work.sort(key=lambda n: -(len(C[n][0]) + len(C[n][1])))
        n = work.pop()
        for p in R[n]:
            for i, s in enumerate(p):
                if s not in R: continue
                l = C[n][0] + [t for x in p[:i] for t in (M[x] if x in R else [x])]
                r = [t for x in p[i + 1:] for t in (M[x] if x in R else [x])] + C[n][1]
                if s not in C or len(l) + len(r) < len(C[s][0]) + len(C[s][1]): C[s] = (l, r); work.append(s)
    return C
def programs(R, start):
    """short programs: every production, with every production of each of its parts"""
    M = minimal(R); C = contexts(R, M, start); seen = set()
    y = lambda p: [t for x in p for t in (M[x] if x in R else [x])]
    for n in R:
        for p in R[n]:
            outs = [y(p)]
            for i, s in enumerate(p):
                if s not in R: continue
                for q in R[s]:
                    outs.append(y(p[:i]) + y(q) + y(p[i + 1:]))
                    for j, s2 in enumerate(q):
                        if s2 not in R: continue
                        for q2 in R[s2]: outs.append(y(p[:i]) + y(q[:j]) + y(q2) + y(q[j + 1:]) + y(p[i + 1:]))
            for o in outs:
                w = tuple(C[n][0] + o + C[n][1])
                if w not in seen: seen.add(w); yield n, p, w
SPELL = {'name': 'a', 'number': '1', 'string': '"s"', 'charstring': "'s'", 'longstring': '[[s]]', 'shebang': '#!sh\n', 'eof': '', 'bar': '|', 'one': '--c\n', 'long': '--[[c]]', 'nl': '\n'}
def show(w): return ' '.join(SPELL.get(t, t) for t in w).strip()
def include(text, G, extra=(), deep=False):
    r = {'bad': {}, 'unclear': [], 'productions': 0, 'pairs': 0, 'steps': 0, 'programs': 0, 'impl': len(G.live)}
    R = parse(text); I = Impl(G)
    terms = {s for ps in R.values() for p in ps for s in p if s not in R}
    T = {}
    for t in sorted(terms):
        x = term(G, t)
        if x is None: r['unclear'].append('no terminal of the grammar stands for %s' % t); return r
        T[t] = x
    r['productions'] = sum(len(ps) for ps in R.values())
    pairs, r['steps'] = simulate(R, I, T, 'Chunk')
    r['pairs'] = len(pairs)
    ok = ('Chunk', I.start) in pairs
    eq = lambda y, x: y == x
    if not ok or deep:
        n = 0
        for nt, p, w in programs(R, 'Chunk'):
            n += 1
            if not I.derives(I.start, [T[t] for t in w], eq):
                k = '%s = %s is rejected' % (nt, ' '.join(p))
                if k not in r['bad'] or len(show(w)) < len(r['bad'][k]): r['bad'][k] = show(w)
        r['programs'] = n
        if not ok and not r['bad']: r['unclear'].append('the grammar is not seen to derive every program of the reference grammar, and no short program is found that it does not derive')
        if len(r['bad']) > 6:
            # report the smallest programs: the others contain them
            r['bad'] = dict(sorted(r['bad'].items(), key=lambda kv: len(kv[1]))[:6])
    for what, s in extra:
        r['programs'] += 1
        if not I.derives(I.start, [T[t] for t in s.split()] + [T['eof']], eq): r['bad'].setdefault(what, show(s.split()))
    return r
def results(ctx):
    def go():
        from grammar import Grammar
        return {'lua': include(REF, ctx.grammar, EXTRA, ctx.deep), 'comments': include(COMMENTS, Grammar(ctx.prog, 'comment_syntax'), (), ctx.deep)}
    return ctx.cached('gram%d' % ctx.deep, go)
