"""The MIR of the option setter is interpreted once per option name with an unknown value, and once with an unknown name; every path must set exactly the
option of that name to the parsed value, or change nothing and report. The listing is interpreted with each option set alone."""
from progcfg import *
RANGE = r'^([0-9]+):([0-9]+)$'
def check(ctx, rep):
    P = ctx.prog
    names = [n for n, _ in fields(P)]; types = dict(fields(P))
    paths = 0
    V = ('x', 'value')
    w = World(P)
    def run(name, cfg=None):
        st = St(); st.heap['cfg'] = cfg or cfgval(P)
        return [(s, flat(P, s.heap['cfg'])) for s, r in w.run(SETTER, [('&', ('H', 'cfg'), ()), name, V], st)]
    before = flat(P, cfgval(P))
    def changed(c): return [n for n in before if c[n] != before[n]]
    for n in names + ['line_range']:
        did = False
        for s, c in run(n):
            paths += 1
            if c is None: rep.unclear('%s: the configuration is not known after the call' % n); continue
            ch = changed(c)
            wrong = [x for x in ch if x != n]
            if wrong: rep.bad('%s | sets %s' % (n, ' '.join(wrong)), 'option `%s` changes `%s`' % (n, '`, `'.join(wrong))); continue
            if n == 'line_range': r = line_range(w, s, c['line_range'] if ch else None, V)
            else: r = value(w, s, c[n] if ch else None, V, inner_type(types[n]))
            if r is None:
                rep.unclear('%s: value %r' % (n, c[n])); did = True; continue
            if r: rep.bad('%s | %s' % (n, r), 'option `%s`: %s' % (n, r)); continue
            if ch: did = True
            if ch and stderr(s): rep.bad('%s | reported although set' % n, 'option `%s` is set and also reported as invalid' % n)
            if not ch and not stderr(s): rep.bad('%s | not reported' % n, 'option `%s`: an invalid value is not reported' % n)
        if not did: rep.bad('%s | never set' % n, 'option `%s` is never set by its name' % n)
    NM = ('x', 'name')
    for s, c in run(NM):
        paths += 1
        if c is None: rep.unclear('unknown name: configuration not known'); continue
        eq = known_eq(w, s, NM)
        if changed(c):
            if eq is None: rep.unclear('a name that is not compared with a constant sets %s' % changed(c))
            elif eq not in before: rep.bad('name %s' % eq, 'the undocumented name `%s` sets %s' % (eq, changed(c)))
        elif eq is None and not stderr(s): rep.bad('unknown name not reported', 'an unknown option name is not reported')
    # nothing is set at the start
    for s, r in w.run('luafmt::config::Config::default', []):
        d = flat(P, w.I.deref(s, r)); paths += 1
        if d is None: rep.unclear('default configuration'); continue
        for n, v in d.items():
            if v != none(): rep.bad('default %s' % n, 'option `%s` is set in the default configuration' % n)
    # the listing
    key = '<%s as core::fmt::Display>::fmt' % CFG
    for n in [None] + names + ['line_range']:
        c = cfgval(P, some(('x', 'v_line_range')) if n == 'line_range' else none(), n, True)
        st = St(); st.heap['out'] = ''
        for s, r in w.run(key, [c, ('&', ('H', 'out'), ())], st):
            paths += 1
            if r != ok(UNIT): continue
            t, vs = text(s.heap['out'])
            import re
            shown = [x for x in names + ['line_range'] if re.search(r'(?<![a-z_])%s(?![a-z_])' % x, t)]
            if shown != ([n] if n else []): rep.bad('listing %s' % n, 'with only `%s` set the listing shows %s' % (n, shown))
            elif n and not any(('x', 'v_' + n) in list(models.walk(p)) for p in vs): rep.bad('listing value %s' % n, 'the listing does not show the value of `%s`' % n)
    rep.cov.update({'options': len(names) + 1, 'paths': paths, 'functions_analysed': len(w.I.visited), 'call_sites_interpreted': w.I.callsites,
                    'rule': 'set(name, value) changes exactly the option called name to the parsed value, or nothing with a message; the listing shows each set option',
                    'samples': names[:5]})
    rep.assumptions += TRUST
def known_eq(w, s, x):
    d = s.facts.get(x)
    if d and d[0] == 'in' and len(d[1]) == 1: return next(iter(d[1]))
    for t, d in s.facts.items():
        if isinstance(t, tuple) and t[0] == 'eq' and d == ('in', frozenset([True])):
            if base(t[1]) == x and isinstance(t[2], str): return t[2]
            if base(t[2]) == x and isinstance(t[1], str): return t[1]
    return None
def value(w, s, v, V, ty):
    """'' fine, text wrong, None cannot say"""
    if v is None:
        if ty == 'alloc::string::String': return 'a text value is not taken'
        d = is_ok(s, ('call', 'parse', ty, V))
        if d is not None: return 'a valid value is not taken' if d else ''
        if not any(V in list(models.walk(t)) for t in s.facts) and ('lang', V) not in s.heap: return 'a valid value is not taken'
        return None
    if not (isinstance(v, tuple) and v[:3] == ('A', OPT, 1)): return 'the option is unset' if v == none() else None
    x = v[3][0]
    if ty == 'alloc::string::String' and base(x) == V: return ''
    p = parsed(x)
    if p: return '' if p == (ty, V) else 'the value is parsed as %s' % p[0] if p[1] == V else 'the value is taken from %r' % (p[1],)
    if isinstance(x, bool):
        e = known_eq(w, s, V)
        if e is None: return 'the value does not depend on the text given' if not any(V in list(models.walk(t)) for t in s.facts) else None
        return '' if e == ('true' if x else 'false') else 'text %r gives %s' % (e, x)
    if ty == 'alloc::string::String' and isinstance(x, str): return 'the value is the constant %r' % x
    return None
def line_range(w, s, v, V):
    L = s.heap.get(('lang', V)); ref = regx.lang(RANGE)
    if v is None:
        if L is None: return None
        if (L & ref).empty(): return ''
        for t, d in s.facts.items():
            if t[0] == 'd' and t[1][:2] == ('call', 'parse') and is_ok(s, t[1]) is False: return ''
        return 'a valid range such as %s is not taken' % (L & ref).sample()
    if not (isinstance(v, tuple) and v[:3] == ('A', OPT, 1) and v[3][0][0] == 'T'): return None
    ps = [parsed(x) for x in v[3][0][1]]
    if None in ps or L is None or any(p[1][:2] != ('call', 'grp') or p[1][4] != V for p in ps): return None
    if not L <= ref: return 'the range text %r is taken' % (L - ref).sample()
    if any(p[0] != 'usize' for p in ps): return 'a bound is parsed as %s' % ps
    for i, p in enumerate(ps):
        m = regx.lang(p[1][2], (p[1][3],)); m = m.renamed({p[1][3]: i + 1})
        r = regx.lang(RANGE, (i + 1,))
        if not (m & r).erase() == ref: return 'bound %d is taken from another part of the text' % (i + 1)
    return ''
