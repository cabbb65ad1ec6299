"""Every option is left symbolic and the MIR of each writer arm, of the preparation pass, of the comment writer and of the rendering between tokens is interpreted;
every option a branch was decided on, and every option whose text is written, must be one of the options of that construct."""
from influence import *
def check(ctx, rep):
    rs = results(ctx, 'reads', 'prepreads')
    cover(rep, rs, 'the options a construct is decided by belong to it')
    report(rep, rs)
    g = ctx.cached('layout-gapreads', lambda: gaps(ctx, {}, True))
    for u in sorted(g['unclear']): rep.unclear(u)
    for o in sorted(g['reads']):
        if not re.fullmatch(GAP, o): rep.bad('gap | ' + o, 'the rendering of the stretch between tokens depends on %s, which says nothing about it' % o)
    c = ctx.cached('layout-commentreads', lambda: comment_reads(ctx))
    for k, (got, unc, n) in sorted(c.items()):
        for u in sorted(unc): rep.unclear('%s: %s' % (k, u))
        for o in sorted(got):
            if not re.fullmatch(COMMENT, o): rep.bad('%s | %s' % (k, o), 'the layout of %s depends on %s, which says nothing about comments' % (k, o))
    d = {}
    for r in rs: d.setdefault(r.get('node'), set()).update(r['reads'])
    rep.cov['options'] = len(options(ctx.prog)); rep.cov['dependencies'] = sum(len(x) for x in d.values()) + len(g['reads']) + sum(len(x[0]) for x in c.values())
    rep.cov['samples'] = ['%s: %s' % (k, ' '.join(sorted(v))) for k, v in sorted(d.items(), key=str) if v][:6]
