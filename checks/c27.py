"""The MIR of each writer arm, of the preparation pass, of the comment writer and of the rendering between tokens is interpreted with no option set; on every path the
pieces written must be the parts of the construct and the source between them, in order, and nothing else."""
from influence import *
def check(ctx, rep):
    rs = results(ctx, 'plain', 'prep')
    cover(rep, rs, 'with no option set the pieces written are the parts and the source between them')
    report(rep, rs)
    for nm, r in (('between tokens', ctx.cached('layout-gapplain', lambda: gap_plain(ctx))), ('comments', ctx.cached('layout-commentplain%d' % ctx.deep, lambda: comments_plain(ctx)))):
        for m in sorted(r['bad']): rep.bad('%s | %s' % (nm, m.split(' (text')[0]), m)
        for u in sorted(r['unclear']): rep.unclear('%s: %s' % (nm, u))
        rep.cov['outcomes ' + nm] = len(r['outs']) if isinstance(r['outs'], list) else r['outs']
    rep.cov['path_outcomes'] += rep.cov['outcomes comments'] + rep.cov['outcomes between tokens']
