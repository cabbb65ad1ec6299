"""See mergeflow.py: the rendering between two tokens is interpreted on every pair of token ends that would merge, and every construct on where it cuts or leaves out that rendering."""
import mergeflow
from base import TRUST
def check(ctx, rep):
    R = mergeflow.results(ctx); g, cs = R['gap'], R['cons']
    for m, w in sorted(g['bad'].items()): rep.bad(m, '%s (%s)' % (m, w))
    for u in sorted(g['unclear']): rep.unclear(u)
    for x in cs:
        for m in sorted(x['bad']): rep.bad('%s | %s | %s' % (x.get('node'), ' '.join(x['leaves']), m), 'writer arm for %s (%s): %s' % (x.get('node'), x['prod'], m))
        for u in sorted(x['unclear']): rep.unclear('%s: %s' % (x['prod'], u))
    rep.cov.update({'neighbouring_terminal_pairs': g.get('pairs', 0), 'merging_terminal_pairs': len(g.get('merging', [])), 'gap_cases': g['cases'], 'gap_path_outcomes': g['outs'], 'constructs': len(cs),
                    'construct_path_outcomes': sum(x['outs'] for x in cs), 'merging_gaps_in_constructs': sum(x['obl'] for x in cs), 'functions_analysed': len(set().union(g['fns'], *[x['fns'] for x in cs])),
                    'call_sites_interpreted': g['sites'] + sum(x['sites'] for x in cs), 'rule': 'where two neighbouring tokens would be read differently when joined, and the source separates them, something blank or a comment is written between them',
                    'samples': ['%s %s' % p for p in g.get('merging', [])[:8]]})
    rep.assumptions += TRUST + ['hint options hold blanks', 'tokens are told apart by their last four and first characters']
