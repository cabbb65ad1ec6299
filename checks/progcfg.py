"""shared by the checks of the program around the formatter: configuration values and ways to compare them"""
from ai import *
from world import *
import regx
CFG = 'luafmt::config::Config'; FMT = 'luafmt::config::FormatOpts'
TRUST = ['the MIR dumper (driver/) and rustc 1.101 nightly', 'the abstract interpreter (engine/ai.py), its models of std (engine/models.py) and of the outside world (engine/world.py)']
SETTER = 'luafmt::config::Config::set'
def fields(prog): return prog.byPath[FMT]['v'][0]['f']
def base(v):
    while isinstance(v, tuple) and v and v[0] == 'S' and len(v[1]) == 1 and isinstance(v[1][0], tuple) and v[1][0][0] == 't': v = v[1][0][1]
    return v
def cfgval(prog, lr=('x', 'lr'), one=None, none_=False):
    """a configuration with every option unknown; or every option unset except `one`"""
    def val(n):
        if not none_: return ('x', 'o_' + n)
        return some(('x', 'v_' + n)) if n == one else none()
    fs = []
    for n, _ in prog.byPath[CFG]['v'][0]['f']:
        if n == 'fmt': fs.append(('A', FMT, 0, tuple(val(m) for m, _ in fields(prog))))
        elif n == 'line_range': fs.append(lr)
        else: fs.append(('x', 'c_' + n))
    return ('A', CFG, 0, tuple(fs))
def flat(prog, c):
    """{option name: value} of a configuration value, None if its fields are not known"""
    if not (isinstance(c, tuple) and c[:2] == ('A', CFG)): return None
    r = {}
    for (n, _), v in zip(prog.byPath[CFG]['v'][0]['f'], c[3]):
        if n == 'fmt':
            if not (isinstance(v, tuple) and v[:2] == ('A', FMT)): return None
            for (m, _), x in zip(fields(prog), v[3]): r[m] = x
        else: r[n] = v
    return r
def inner_type(ty): return ty[ty.index('<') + 1:-1]
def parsed(v):
    """(type, text) if v is the success value of parsing text"""
    v = base(v)
    if isinstance(v, tuple) and v[0] == 'f' and v[2:] == (0, 0) and isinstance(v[1], tuple) and v[1][:2] == ('call', 'parse'): return v[1][2], base(v[1][3])
    return None
def text(v):
    """the constant characters of a printed text and its variable parts"""
    t = ''; vs = []
    for p in pieces(v):
        if isinstance(p, str): t += p
        else: t += '\x00'; vs.append(p)
    return t, vs
def stderr(st): return [e for e in fx(st) if e[0] == 'stderr']
def is_ok(s, t):
    """is the result t known to be Ok on this path"""
    d = s.facts.get(('d', t))
    if d is None: return None
    if d[0] == 'in': return True if d[1] == {0} else False if 0 not in d[1] else None
    return False if 0 in d[1] else True if 1 in d[1] else None
