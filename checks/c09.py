"""See rangeflow.py; the computation of the range from the lines is followed in tableflow.py."""
import rangeflow, libflow, tableflow
def check(ctx, rep):
    rs = rangeflow.results(ctx)
    G = ctx.grammar
    outs = [r for k, r in rs if k in 'oc']
    for k, r in rs:
        if k == "e": rep.unclear(r); continue
        for u in sorted(r['unclear']): rep.unclear('%s: %s' % (r['prod'], u))
    for r in outs:
        for m in sorted(r['bad']): rep.bad('%s | blanks before the range are removed' % r.get('node') if m.startswith('blanks before the range') else '%s | %s | %s' % (r.get('node'), ' '.join(r['leaves']), m), '%s (writer arm for %s, production %s): %s' % (r.get('node'), ' '.join(r['leaves']), r['prod'], m))
    # widening: what preparation does to each construct at block level 1 is to take in the whole construct where it overlaps the range
    W = [r for k, r in rs if k == 'w' and r['node']]
    stm = statement_nts(G)
    for r in W:
        nt = r['prod'].split(' = ')[0]
        if nt not in stm or r['node'] in rangeflow.TOP or 'RetStat' in (r['node'] or ''): lvl0 = 0 if 'RetStat' in (r['node'] or '') and nt in stm else None
        else: lvl0 = 1
        if lvl0 is None: continue
        for lvl, rng, s, e, got in sorted(r['wide'], key=repr):
            if lvl != lvl0: continue
            l, rr = rng
            touch = rr > s and l < e
            want = (min(l, s), max(rr, e)) if touch else rng
            if got[3] != (('T', want),):
                rep.bad('%s | %s | widening' % (r['node'], ' '.join(r['leaves'])), 'preparation of %s (%s): the range %s given, with the statement at %s..%s, becomes %s instead of %s' % (r['node'], r['prod'], rng, s, e, got[3][0][1] if got[3] else None, want))
    # the statements of the program are visited at level 1
    for r in W:
        if r['node'] != 'StatementList': continue
        for lvl, c, to in sorted(r['levels'], key=repr):
            if lvl == 0 and to != 1: rep.bad('StatementList | level', 'preparation visits the statements of the program at block level %s, not 1' % (to,))
    l = libflow.results(ctx)
    libflow.report(rep, l, 'C09')
    t = tableflow.results(ctx)
    for u in sorted(t['unclear']): rep.unclear(u)
    for p, m in sorted(t['bad']):
        if p == 'C09': rep.bad(m, m)
    rep.cov['texts_for_line_positions'] = t['cases']
    rep.cov.update({'constructs': len(outs), 'placements_of_the_range': sum(r['cases'] for r in outs), 'path_outcomes': sum(r['outs'] for r in outs), 'functions_analysed': len(set().union(*[r['fns'] for r in outs])),
                    'call_sites_interpreted': sum(r['sites'] for r in outs), 'widening_cases': sum(len(r['wide']) for r in W),
                    'rule': 'outside the range the pieces written are the source, character for character; preparation widens the range to touched statements',
                    'samples': ['%s: %s' % (r.get('node'), r['prod']) for r in outs[:5]]})
    rep.assumptions += ['positions only matter by their order (and as widths compared with an unknown limit)', 'lists are unrolled to at most 2 items (3 in the thorough tier)', 'the MIR dumper, the abstract interpreter and its models of std']
def statement_nts(G):
    out = set()
    for p in G.live:
        if p.nt.startswith('Stat') or p.nt.startswith('RetStat'): out.add(p.nt)
    return out
