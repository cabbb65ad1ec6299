"""Every production of the grammar is turned into a tree by abstractly interpreting the MIR of its actions; the MIR of the preparation pass and of
the writer is then interpreted on that tree with every option, position and child symbolic. On every path that ends in success the sequence of
written pieces must be the construct's own tokens and children, each once, in source order."""
from base import *
import lexflow, libflow, quoteflow
def check(ctx, rep):
    rs = results(ctx)
    coverage(ctx, rep, rs, 'on every successful path the written pieces spell the leaves of the production in order')
    for r in rs:
        for k, m in r['bad']:
            if k in ('token', 'order', 'dup', 'slice'): report(rep, r, m)
    # the tokens the parser gets are those of the text, the writer's text is the result, and a requoted string keeps its text
    cov = dict(rep.cov)
    lexflow.report(ctx, rep, ['C05'], '')
    cov['lexer_states_explored'] = rep.cov['lexer_states_explored']; rep.cov = cov
    libflow.report(rep, libflow.results(ctx), 'C01')
    q = quoteflow.results(ctx)
    for m, w in sorted(q['bad'].items()): rep.bad(m, m + (' (text: %r)' % w if w else ''))
    for u in q['unclear']: rep.unclear(u)
