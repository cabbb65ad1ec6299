"""The grammar the generated LALR parser implements: productions and the action function of each, read from the generated
source, and the syntax tree each production builds, obtained by interpreting the MIR of the action functions."""
import re, os
from ai import *

class Prod:
    def __init__(self, nt, rhs, act):
        self.nt, self.rhs, self.act = nt, rhs, act
    def __repr__(self): return '%s = %s' % (self.nt, ' '.join(self.rhs))

def split_rhs(s):
    out = []; cur = ''; q = False; d = 0
    for ch in s:
        if ch == '"': q = not q
        if not q:
            if ch == '<': d += 1
            if ch == '>': d -= 1
            if ch == ',' and d == 0:
                out.append(cur.strip()); cur = ''; continue
        cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

class Grammar:
    def __init__(self, prog, name='lua_syntax'):
        self.prog = prog
        self.mod = 'luafmt::parser::' + name
        src = open(os.path.join(prog.outdir, name + '.rs')).read()
        seen = set()
        self.prods = []
        for m in re.finditer(r'^\s*// (\S.*?) = (.*?)=> ActionFn\((\d+)\);$', src, re.M):
            nt, rhs, act = m.group(1), m.group(2), int(m.group(3))
            if (nt, rhs, act) in seen: continue
            seen.add((nt, rhs, act))
            if nt.startswith('@'): continue
            self.prods.append(Prod(nt, split_rhs(rhs.strip()), act))
        m = re.search(r'const __TERMINAL: &\[&str\] = &\[(.*?)\];', src, re.S)
        self.terminals = re.findall(r'r###"(.*?)"###', m.group(1))
        self.nts = {}
        for p in self.prods: self.nts.setdefault(p.nt, []).append(p)
        self.start = 'Chunk'
        # reachable
        reach = set(); work = [self.start]
        while work:
            n = work.pop()
            if n in reach: continue
            reach.add(n)
            for p in self.nts.get(n, []):
                for s in p.rhs:
                    if s in self.nts: work.append(s)
        self.reach = reach
        self.live = [p for p in self.prods if p.nt in reach]
        self.rettype = {}
        for p in self.prods:
            f = prog.raw.get(self.action_key(p.act))
            if f: self.rettype[p.nt] = f['locals'][0]
        self.tokens()

    def action_key(self, n): return '%s::__action%d' % (self.mod, n)

    def tokens(self):
        """terminal name -> (token variant index, payload types)"""
        keys = [k for k in self.prog.raw if k.startswith(self.mod) and k.endswith('__token_to_integer')]
        f0 = self.prog.raw[keys[0]]
        tok = self.prog.byPath[self.prog.adt_path(f0['locals'][1].lstrip('&'))]
        self.tokpath = tok['path']
        self.tokvar = {}
        self.varname = {}
        I = Interp(self.prog)
        for i, v in enumerate(tok['v']):
            st = St()
            val = ('A', tok['path'], i, tuple(('x', 'pl%d' % j) for j in range(len(v['f']))))
            outs = I.run(st, keys[0], [val, ('x', 'phantom')])
            for s, r in outs:
                if r[0] == 'A' and r[2] == 1:
                    t = self.terminals[r[3][0]]
                    self.tokvar[t] = i
                    self.varname[t] = v['n']
        self.payload = {t: [f[1] for f in tok['v'][i]['f']] for t, i in self.tokvar.items()}

    def is_term(self, s): return s not in self.nts
    def is_node(self, s): return self.rettype.get(s, '').endswith('ast::Node')

    # ---- derivations of a production into leaves (terminals and node nonterminals)
    def expansions(self, sym, cap):
        """derivation trees for a non-node nonterminal, list recursion at most `cap` items"""
        return self._exp(sym, cap)
    def _exp(self, sym, cap):
        out = []
        for p in self.nts[sym]:
            rec = sym in p.rhs
            if rec and cap <= 1: continue
            parts = [[]]
            for s in p.rhs:
                if self.is_term(s) or self.is_node(s): opts = [('leaf', s)]
                else: opts = self._exp(s, cap - 1 if s == sym else cap)
                parts = [x + [o] for x in parts for o in opts]
            for x in parts: out.append(('prod', p, x))
        return out
    def derivations(self, p, cap):
        parts = [[]]
        for s in p.rhs:
            if self.is_term(s) or self.is_node(s): opts = [('leaf', s)]
            else: opts = self._exp(s, cap)
            parts = [x + [o] for x in parts for o in opts]
        return [('prod', p, x) for x in parts]
    def leaves(self, d):
        if d[0] == 'leaf': return [d[1]]
        return [l for x in d[2] for l in self.leaves(x)]

    # ---- the value an action builds
    def build(self, I, d, tag=''):
        """run the actions of derivation d; returns (leaves, value, start, end).
        leaf i spans characters L<i>..R<i>; node leaves are the symbols n<i>, token payloads p<i>"""
        ctr = [0]
        leaves = []
        def go(d):
            if d[0] == 'leaf':
                ctr[0] += 1
                i = ctr[0]
                s = d[1]
                l, r = ('x', 'L%d%s' % (i, tag)), ('x', 'R%d%s' % (i, tag))
                if self.is_term(s):
                    pl = self.payload.get(s, [])
                    if len(pl) == 1: v = ('x', 'p%d%s' % (i, tag))
                    elif pl: v = ('T', tuple(('x', 'p%d_%d%s' % (i, j, tag)) for j in range(len(pl))))
                    else: v = ('A', self.tokpath, self.tokvar.get(s, 0), ())
                else: v = ('x', 'n%d%s' % (i, tag))
                leaves.append((s, l, r, v))
                return l, v, r
            args = [go(x) for x in d[2]]
            key = self.action_key(d[1].act)
            st = St()
            f = self.prog.raw[key]
            if not args and f['argc'] == 3:
                a = [('x', 'input'), ('x', 'Lb'), ('x', 'La')]
            else:
                a = [('x', 'input')] + [('T', t) for t in args]
            outs = I.run(st, key, a)
            if len(outs) != 1: raise Undecided('action %s has %d outcomes' % (key, len(outs)))
            v = outs[0][1]
            return (args[0][0] if args else ('x', 'Lb')), v, (args[-1][2] if args else ('x', 'La'))
        l, v, r = go(d)
        return leaves, v, l, r
