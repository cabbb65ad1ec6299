"""See tableflow.py (the table holds the byte of every character and of the end), constructs.py and comments.py (the source is cut only at positions taken
from that table, the comment block's own start allowed for), libflow.py (the table is that of the text being formatted)."""
import tableflow, libflow, comments
from base import *
def check(ctx, rep):
    t = tableflow.results(ctx)
    for u in sorted(t['unclear']): rep.unclear(u)
    for p, m in sorted(t['bad']):
        if p == 'C22': rep.bad(m, m)
    l = libflow.results(ctx)
    libflow.report(rep, l, 'C22')
    rs = results(ctx)
    coverage(ctx, rep, rs, 'every stretch of source copied by a writer arm is cut at two entries of the position table; the table has every character of the text and its end')
    for r in rs:
        for k, m in r['bad']:
            if k == 'slice': report(rep, r, m)
    c = comments.results(ctx)
    for x in c['nodes'] :
        for m in sorted(x['bad']):
            if 'copied from a place' in m or 'copied between' in m: rep.bad('comment node %s | %s | %s' % (x.get('node'), ' '.join(x['leaves']), m), 'comment writer arm for %s (%s): %s' % (x.get('node'), x['prod'], m))
    for k, nm in (('one', 'OneLineComment'), ('long', 'MultiLineComment')):
        for m, w in sorted(c[k]['bad'].items()):
            if 'copied from a place' in m: rep.bad('comment %s | %s' % (nm, m), 'comment writer arm for %s: %s (text: %s)' % (nm, m, w))
    rep.cov.update({'texts': t['cases'], 'table_paths': t['paths'], 'functions_from_text_to_table': sorted(t['fns'])})
    rep.assumptions += ['texts of up to 3 unknown characters (5 thorough) for the table; longer texts repeat the same loop']
