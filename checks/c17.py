"""Every place of the program's MIR that can panic (assertions the compiler inserts, unwrapping, indexing, slicing, insertion, explicit panics) is listed; the
interpretations of the other checks record what they found at each: reached with the panic ruled out by the facts of every path, or reached with a panic."""
import re
import base, comments, lexflow, libflow, mainflow, quoteflow, tableflow, mergeflow, c10, c11, c15, c16
from base import TRUST
PAN = re.compile(r'::unwrap(_err|_none)?$|::expect(_err)?$|ops::index::Index|panick|begin_panic|unreachable|copy_from_slice|clone_from_slice|split_at|Vec.*::(remove|swap_remove|insert|drain|split_off)$|String::(insert|insert_str|remove|drain|split_off|truncate|replace_range)$|::swap$|RefCell.*::borrow|step_by|::chunks|repeat$|digit$|from_str_radix|copy_within|rotate_|process::abort')
class Sink:
    def __init__(self): self.cov = {}; self.assumptions = []
    def bad(self, *a): pass
    def unclear(self, *a): pass
def config(ctx):
    for m in (c10, c11, c15, c16): m.check(ctx, Sink())
    return 1
FLOWS = [('constructs%d', lambda ctx: base.results(ctx)), ('comments%d', lambda ctx: comments.results(ctx)), ('lua_lexer%d', lambda ctx: lexflow.results(ctx)), ('comment_lexer%d', lambda ctx: lexflow.results(ctx, 'comment_lexer')),
         ('libflow', lambda ctx: libflow.results(ctx)), ('mainflow', lambda ctx: mainflow.results(ctx)), ('quote%d', lambda ctx: quoteflow.results(ctx)), ('table%d', lambda ctx: tableflow.results(ctx)),
         ('merge%d', lambda ctx: mergeflow.results(ctx)), ('config', lambda ctx: ctx.cached('config', lambda: config(ctx)))]
def generated(k): return '_syntax::' in k
def short(k): return re.sub(r'<(\S+) as ([^<>]|<[^<>]*>)*>', r'\1', k).replace('luafmt::', '')
def sites(P):
    """(function, line, what): every place that can panic in the functions of the crate"""
    out = {}
    for k, f in P.raw.items():
        if not f.get('ours') or '_test' in (f['file'] or '') or generated(k): continue
        fn = P.fn(k)
        for bb in fn.bb:
            if not bb: continue
            t = bb[1]
            if t[0] == 'assert': out[(k, t[5], t[3])] = 'assert'
            elif t[0] == 'call' and t[1][0] == 'dir':
                n = t[1][1].r or t[1][1].p or ''
                if PAN.search(n) and 'luafmt::' not in n: out[(k, t[5], n)] = 'call'
                elif t[4] is None and 'exit' not in n: out[(k, t[5], n)] = 'call'
    return out
def check(ctx, rep):
    import ai
    P = ctx.prog
    L = ai.Log(); flows = 0
    for n, f in FLOWS:
        f(ctx)
        n = n % (3 if ctx.deep else 2) if n.startswith('constructs') else n % ctx.deep if '%' in n else n
        l = ctx.log(n)
        if l is None: rep.unclear('the record of %s is missing' % n); continue
        flows += 1; L.merge(l)
    ours = {k for k, f in P.raw.items() if f.get('ours')}
    seen = {}
    for key, line, kind, stack in sorted(L.panics):
        at = [k for k in stack if k in ours] or [key]
        x = (at[-1], kind)
        if x not in seen: seen[x] = line
    for (k, kind), line in sorted(seen.items()): rep.bad('%s | %s' % (short(k), kind), '%s can panic: %s%s' % (short(k), kind, ' (line %d)' % line if k in ours else ''))
    S = sites(P); ok = 0; counters = 0; spans = set(); unseen = []
    for s, w in sorted(S.items()):
        if w == 'call':
            if s in L.sites: ok += 1
            else: unseen.append(s)
            continue
        d = L.asserts.get(s)
        if not d: unseen.append(s); continue
        good = True
        for c in d:
            if c == 'ok' or c == ('holds',): pass
            elif c == 'fails': good = False
            elif c == ('ovf',): counters += 1
            elif c[0] == 'span': spans.add(c[1])
            elif c[0] == 'fails':
                good = False; rep.bad('%s | %s' % (short(s[0]), s[2]), '%s can panic (%s, line %d): %s may be negative' % (short(s[0]), s[2], s[1], c[1]))
            else: good = False; rep.unclear('%s line %d: %s is not settled (%s)' % (short(s[0]), s[1], s[2], str(c)[:160]))
        ok += good
    for k, line, what in sorted(L.open): rep.unclear('%s line %d: %s is not settled' % (short(k), line, what))
    for s in unseen: rep.unclear('%s line %d (%s) is not reached by any interpretation' % (short(s[0]), s[1], s[2]))
    # the spans the subtractions rest on: from the start of the first token to the end of the last
    ns = 0
    for r in base.results(ctx):
        if r.get('span') is None: continue
        ns += 1
        if r['span'] is False: rep.bad('span | %s' % ' '.join(r['leaves']), '%s: the span is not that of its tokens' % r['prod'])
    rep.cov.update({'places_that_can_panic': len(S), 'settled': ok, 'not_reached': len(unseen), 'assertions_about_counters': counters, 'spans_checked': ns, 'interpretations_used': flows, 'functions_analysed': len(L.fns),
                    'call_sites_interpreted': len(L.sites), 'rule': 'no path of any interpretation reaches a panic, and the facts of every path settle the assertions and calls that could',
                    'samples': ['%s line %d: %s' % (short(s[0]), s[1], s[2]) for s in sorted(S)[:6]]})
    rep.assumptions += TRUST + ['counters of characters, lines and nesting stay below 2^63', 'the generated parser tables, the regex crate and the standard library do not panic by themselves', 'the stack and the memory suffice; standard output stays open']
