"""As C01, for the stretches of source between adjacent tokens: on every successful path each stretch is rendered exactly once, between the pieces of
the two leaves it separates (or the path has established that the stretch is blank)."""
from base import *
import comments
def check(ctx, rep):
    rs = results(ctx)
    coverage(ctx, rep, rs, 'on every successful path each gap (R_i, L_i+1) is rendered once, between leaf i and leaf i+1')
    for r in rs:
        for k, m in r['bad']:
            if k in ('gap', 'gapdup'): report(rep, r, m)
    rep.cov['gaps'] = sum(max(0, len(r['leaves']) - 1) for r in rs)
    comments.report(ctx, rep)
