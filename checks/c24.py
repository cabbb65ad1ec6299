"""See quoteflow.py; that the writer puts the converted text between double quotes is part of the constructs' check."""
import quoteflow
from base import *
def check(ctx, rep):
    r = quoteflow.results(ctx)
    for m, w in sorted(r['bad'].items()): rep.bad(m, m + (' (text: %r)' % w if w else ''))
    for u in sorted(r['unclear']): rep.unclear(u)
    rs = results(ctx)
    n = 0
    for x in rs:
        if 'CharStringLiteral' not in x['leaves']: continue
        n += 1
        for k, m in x['bad']: report(rep, x, m)
        for u in x['unclear']: rep.unclear('%s: %s' % (x['prod'], u))
    rep.cov.update({'texts': r['cases'], 'path_outcomes': r['outs'], 'functions_analysed': sorted(r['fns']), 'call_sites_interpreted': r['sites'], 'constructs_with_single_quoted_strings': n,
                    'rule': 'the text after preparation is a well-formed double-quoted string that denotes the same characters; nothing changes unless the option is true', 'samples': ["'a\"'", "'\\\\\"'"]})
    rep.assumptions += TRUST + ['texts of up to 4 items (5 thorough), an item being a character or a backslash pair']
