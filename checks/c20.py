"""Both lexers are followed over an unknown text (a turn that consumes nothing and changes nothing is reported); every other loop of the crate must move
something it depends on; where a construct is rendered inside itself the options must differ along the whole chain."""
import lexflow, termination
def check(ctx, rep):
    for m in ('comment_lexer', 'lua_lexer'):
        lexflow.report(ctx, rep, ['C20'], 'every lexer step consumes or ends; every loop turn changes what the loop depends on; a construct rendered inside itself has other options each time', mod=m)
    r = termination.results(ctx)
    for k, file, ln, v in r['loops']:
        if v == 'stuck': rep.bad('loop %s' % k, '%s:%s %s: a turn of the loop is possible that changes nothing the loop depends on' % (file, ln, k))
        elif v == 'unclear': rep.unclear('loop in %s line %s' % (k, ln))
    for x in r['chains']:
        for fn, m in sorted(x['bad']): rep.bad('nested %s | %s' % (' '.join(x['leaves']), fn), '%s (%s): %s' % (fn, x['prod'], m))
        for u in sorted(x['unclear']): rep.unclear('%s: %s' % (x['prod'], u))
    rep.cov['loops'] = len(r['loops']); rep.cov['recursive_function_groups'] = len(r['sccs'])
    rep.cov['nested_configurations'] = sum(x['configs'] for x in r['chains']); rep.cov['nested_renderings'] = sum(x['edges'] for x in r['chains'])
