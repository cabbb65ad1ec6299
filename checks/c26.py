"""The MIR of each writer arm is interpreted with one line-break option set, the options that may override it unset and all the others symbolic; on every path that
succeeds the parts the option names must begin on a line of their own, behind the indentation of the right level, and be laid out at that level."""
from influence import *
def check(ctx, rep):
    rs = results(ctx, 'breaks')
    cover(rep, rs, 'a part begins on its own line at the right level on every path')
    rep.cov['obligations'] = sum(r['obl'] for r in rs)
    if not rep.cov['obligations']: rep.unclear('no line break to examine')
    report(rep, rs)
    P = ctx.prog; st = [k for k in P.raw if k == 'luafmt::config::State::default']
    for k in st:
        try:
            I = Interp(P)
            for s, v in I.run(St(), k, []):
                v = I.deref(s, v)
                for (n, t), x in zip(P.byPath['luafmt::config::State']['v'][0]['f'], v[3]):
                    if n == 'indent_level' and x != 0: rep.bad('State::default', 'formatting begins at indentation level %r' % (x,))
        except Undecided as e: rep.unclear('State::default: %s' % (e,))
