"""The MIR of the preparation pass is interpreted on the tree of every production: each child is handed to the pass exactly once on every path and the
node keeps its variant and children (a single-quoted string may become a double-quoted one)."""
from base import *
import libflow
def check(ctx, rep):
    rs = results(ctx)
    coverage(ctx, rep, rs, 'every child of every production is visited exactly once by preparation; the node keeps its shape')
    rep.cov['children'] = sum(1 for r in rs for s in r['leaves'] if not ctx.grammar.is_term(s))
    for r in rs:
        for k, m in r['children']: report(rep, r, m)
    libflow.report(rep, libflow.results(ctx), 'C23')
