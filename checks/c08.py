"""As C01, restricted to expressions: operands, operators and parentheses of every expression production come out once each, in source order."""
from base import *
def check(ctx, rep):
    G = ctx.grammar
    # nonterminals an expression is made of, statements inside function bodies excluded
    ex = set(); work = ['OpExp']
    while work:
        n = work.pop()
        if n in ex or n not in G.nts or n == 'FuncBody': continue
        ex.add(n)
        for p in G.nts[n]: work += [s for s in p.rhs if s in G.nts]
    rs = [r for r in results(ctx) if r['nt'] in ex]
    coverage(ctx, rep, rs, 'operands, operators and parentheses of each expression production are written once, in order')
    rep.cov['expression_nonterminals'] = len(ex)
    for r in rs:
        for k, m in r['bad']:
            if k in ('token', 'order', 'dup'): report(rep, r, m)
