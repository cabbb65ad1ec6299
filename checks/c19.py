"""As C01, for trial layouts: nothing is written to the real output with a trial configuration, no text of a trial stays in the output (a piece
written a second time), a trial that failed half-way leaves the running state alone."""
from base import *
def check(ctx, rep):
    rs = results(ctx)
    coverage(ctx, rep, rs, 'the real output gets pieces only under the real configuration, each once; state is restored on every path that swallows a failed rendering')
    for r in rs:
        for k, m, w in r.get('leaks', []): report(rep, r, '%s (in %s)' % (m, w))
        for k, m in r['bad']:
            if k in ('dup', 'gapdup', 'err'): report(rep, r, m)
        for nm, v in r['state']:
            if 'hv:' in v or 'call' in v: report(rep, r, '%s is left as a failed trial had it' % nm)
