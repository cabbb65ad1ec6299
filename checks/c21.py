"""An effect query over the call graph: starting from the library's entry point (text and configuration in, text out), no function that can be reached calls an
operation whose result depends on anything but its arguments, reads a static that can change, or walks a collection whose order is not fixed."""
import re
import effects, libflow
from mainflow import PB
DENY = [
    (r'^std::time::|^core::time::.*now', 'the clock'), (r'^std::env::', 'the environment'), (r'^std::(fs|net|os)::|^std::path::Path::(exists|is_file|is_dir|metadata|canonicalize|read_dir|try_exists|is_symlink)', 'the file system'),
    (r'^std::process::(Command|id|abort|exit)', 'the process'), (r'^std::thread::|^std::sync::', 'threads or shared state'), (r'^std::io::stdio::(stdin|Stdin)|Stdin', 'standard input'),
    (r'RandomState|DefaultHasher|BuildHasher|getrandom|(^|[:<])(rand|fastrand|uuid)::', 'randomness'),
    (r'^core::sync::atomic|thread::local::|LocalKey', 'shared state'), (r'::addr$|::expose_provenance$|new_pointer$|^core::ptr::addr|type_id', 'addresses'),
    (r'read_volatile|asm!', 'memory'), (r'^std::panic|catch_unwind', 'panics'), (r'available_parallelism|^std::backtrace', 'the machine'),
]
DENY = [(re.compile(a), b) for a, b in DENY]
HASH = re.compile(r'hash::(map|set)::|HashMap|HashSet')
ORDERFREE = {'get', 'get_mut', 'entry', 'insert', 'contains_key', 'contains', 'len', 'is_empty', 'new', 'with_capacity', 'clone', 'clone_from', 'default', 'or_insert', 'or_insert_with', 'or_insert_with_key', 'or_default', 'and_modify', 'reserve', 'clear',
             'remove', 'remove_entry', 'extend', 'collect', 'from_iter', 'from', 'get_or_insert_with', 'index', 'key', 'get_key_value', 'replace', 'take', 'into_mut', 'deref', 'deref_mut', 'borrow', 'as_ref', 'capacity', 'shrink_to_fit', 'unwrap', 'unwrap_or', 'eq', 'ne', 'copied', 'cloned', 'map', 'drop',
             'count', 'any_eq'}
WALK = re.compile(r'hash::(map|set)::(Iter|IterMut|Keys|Values|ValuesMut|Drain|IntoIter|IntoKeys|IntoValues|ExtractIf|Union|Difference|Intersection|SymmetricDifference)\b')
def strings(v, out):
    if isinstance(v, str): out.add(v)
    elif isinstance(v, dict):
        for x in v.values(): strings(x, out)
    elif isinstance(v, (list, tuple)):
        for x in v: strings(x, out)
def reachable(P, roots):
    seen = {}
    work = [(r, None) for r in roots]
    names = {}
    while work:
        k, par = work.pop()
        if k in seen or k not in P.raw: continue
        seen[k] = par
        s = set(); strings(P.raw[k]['bb'], s)
        for x in s:
            if x in P.raw and x not in seen: work.append((x, k))
        for c in names.get(k, ()): work.append((c, k))
    return seen
def path(seen, k):
    out = []
    while k and len(out) < 12: out.append(k.replace('luafmt::', '')); k = seen[k]
    return ' <- '.join(out)
def check(ctx, rep):
    P = ctx.prog
    if PB not in P.raw: rep.unclear('there is no function ' + PB); return
    seen = reachable(P, [PB])
    mine = sorted(k for k in seen if P.raw[k]['ours'])
    calls = 0; outside = set()
    for k in mine:
        r = P.raw[k]
        for b in P.fn(k).bb:
            if b is None: continue
            t = b[1]
            if t[0] != 'call' or t[1][0] == 'ind': continue
            c = t[1][1]; calls += 1
            nm = c.r or c.p or ''
            full = ' '.join(str(x) for x in (c.p, c.r, getattr(c, 'i', '') or '', ' '.join(c.g or ())))
            own = nm in P.raw and P.raw[nm]['ours'] or nm.startswith('luafmt') or nm.startswith('<luafmt')
            if own: continue
            outside.add(nm)
            if 'lazy_lock::LazyLock' in nm or 'cell::lazy::LazyCell' in nm: continue         # made once, from nothing that is captured (its making is reached too)
            for rx, what in DENY:
                if rx.search(nm): rep.bad('%s calls %s' % (k, nm), '%s (%s:%s) calls %s: the result of formatting would depend on %s (%s)' % (k, r['file'], t[5], nm, what, path(seen, k)))
            last = nm.rsplit('::', 1)[-1]
            if WALK.search(full) or HASH.search(nm) and last not in ORDERFREE and last not in ('next',) or last in ('into_iter', 'iter', 'for_each', 'new_debug') and HASH.search(full) and not ('vec::' in nm):
                rep.bad('%s walks a hash table: %s' % (k, nm), '%s (%s:%s) walks a hash table, whose order is not fixed (%s; %s)' % (k, r['file'], t[5], nm, path(seen, k)))
        s = set(); strings(r['bb'], s)
        for x in s:
            if x.startswith('static '):
                st = P.statics.get(x)
                if st is None:
                    if not re.search(r'static (core|alloc|std|phf|regex)', x): continue
                    continue
                if st[0]: rep.bad('%s uses %s' % (k, x), '%s (%s) uses the mutable %s: the result would depend on what was formatted before' % (k, r['file'], x))
                elif not st[1] and not ('LazyLock<' in st[2] and not re.search(r'Mutex|RwLock|Atomic|cell::(Cell|RefCell|UnsafeCell|OnceCell)|OnceLock', st[2])): rep.bad('%s uses %s' % (k, x), '%s (%s) uses %s, of type %s, which can change: the result would depend on what was formatted before' % (k, r['file'], x, st[2]))
        if any(isinstance(x, list) and x[:2] == ['cast', 'expose'] for x in nested(r['bb'])): rep.bad('%s address' % k, '%s (%s) turns an address into a number' % (k, r['file']))
    l = libflow.results(ctx)
    libflow.report(rep, l, 'C21')
    rep.cov.update({'functions_analysed': len(mine), 'call_sites_judged': calls, 'operations_of_other_crates': len(outside), 'statics': sorted(P.statics), 'rule': 'no reachable call of an operation that depends on more than its arguments, no mutable static, no walk over a hash table',
                    'samples': sorted(outside)[:10]})
    rep.assumptions += ['the MIR dumper (driver/) resolves every call of the program (monomorphic instances)', 'std, regex, phf and the parser runtime depend on nothing but their arguments, apart from the operations listed']
def nested(v):
    if isinstance(v, list):
        yield v
        for x in v: yield from nested(x)
    elif isinstance(v, dict):
        for x in v.values(): yield from nested(x)
