"""See gramflow.py: every production of a reference grammar of Lua 5.3 is matched by derivations of the parser's grammar, pair of nonterminals by pair."""
import gramflow, lexflow
from base import TRUST
def check(ctx, rep):
    R = gramflow.results(ctx); a, c = R['lua'], R['comments']
    for what, r in (('lua_syntax', a), ('comment_syntax', c)):
        for m, w in sorted(r['bad'].items()): rep.bad(m if what == 'lua_syntax' else 'comments | ' + m, 'the grammar %s does not derive: %s' % (what, w))
        for u in r['unclear']: rep.unclear('%s: %s' % (what, u))
    lexflow.report(ctx, rep, ['C06'], '')
    g = ctx.grammar
    fall = sorted({p.nt for p in g.live if 'result::Result<' in (g.rettype.get(p.nt) or '')})
    for n in fall: rep.unclear('the action of %s may reject what the grammar derives' % n)
    rep.cov.update({'reference_productions': a['productions'] + c['productions'], 'parser_productions': a['impl'] + c['impl'], 'simulating_pairs': a['pairs'] + c['pairs'], 'obligations': a['steps'] + c['steps'],
                    'programs_derived': a['programs'] + c['programs'], 'rule': 'each reference production of a pair (reference symbol, parser symbol) is a sentential form the parser symbol derives, with pairs standing for nonterminals; the start symbols are a pair',
                    'samples': [l[:100] for l in gramflow.REF.strip().split('\n')[:6]]})
    rep.assumptions += TRUST + ['lalrpop parsers accept the language of their grammar when it has no conflicts', 'the reference grammar is the Lua 5.3 manual\'s, read with its rule that a call continues the expression before it']
