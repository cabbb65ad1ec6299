"""As C01, for the running state: on every successful path of every construct the indentation level, indentation stack, nesting levels, line range
and offset table are the terms they were before it."""
from base import *
import libflow
def check(ctx, rep):
    rs = results(ctx)
    coverage(ctx, rep, rs, 'state after a construct equals state before it: ' + ', '.join(constructs.PRESERVED))
    for r in rs:
        for nm, v in r['state']: report(rep, r, '%s is not restored' % nm)
    libflow.report(rep, libflow.results(ctx), 'C18')
