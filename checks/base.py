"""shared by the construct checks"""
import constructs
def results(ctx):
    cap = 3 if ctx.deep else 2
    return ctx.cached('constructs%d' % cap, lambda: constructs.run_all(ctx.outdir, cap))
TRUST = ['the MIR dumper (driver/) and rustc 1.101 nightly', 'the abstract interpreter (engine/ai.py) and its models of std (engine/models.py)',
         'lists are unrolled to at most 2 items (3 in the thorough tier); longer lists repeat the same loop body']
def coverage(ctx, rep, rs, rule):
    rep.cov.update({
        'constructs': len(rs), 'productions': len(set(r['prod'] for r in rs)), 'node_kinds': len(set(r.get('node') for r in rs if r.get('node'))),
        'path_outcomes': sum(r['outs'] for r in rs), 'completed_paths': sum(r['ok'] for r in rs), 'functions_analysed': len(set().union(*[r['fns'] for r in rs])),
        'call_sites_interpreted': sum(r['sites'] for r in rs), 'rule': rule,
        'samples': ['%s: %s' % (r.get('node'), r['prod']) for r in rs[:5]]})
    for r in rs:
        for u in r['unclear']: rep.unclear('%s: %s' % (r['prod'], u))
    rep.assumptions += TRUST
def key(r, msg): return '%s | %s | %s' % (r.get('node'), ' '.join(r['leaves']), msg)
def report(rep, r, msg, act=True):
    rep.bad(key(r, msg), '%s (writer arm for %s, production %s): %s' % (r.get('node'), ' '.join(r['leaves']), r['prod'], msg))
