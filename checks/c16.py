"""The configuration search and the choice between options and configuration file are interpreted on unknown directories, files and option sets: the nearest
directory with a .luafmt*.lua file must win, no file may be consulted when any of the options is set, and no file at all is an error."""
import filesearch, libflow
from progcfg import TRUST
def check(ctx, rep):
    b1, u1, n1, w = filesearch.config_search(ctx)
    b2, u2, n2, ob, fns = filesearch.in_dir(ctx)
    b3, u3, n3, w3 = filesearch.empty_format(ctx)
    l = libflow.results(ctx)
    for u in u1 + u2 + u3: rep.unclear(u)
    for f, b in (('get_file_config', b1), ('test_file_in_dir', b2), ('has_empty_format', b3)):
        for m in b: rep.bad(m, '%s: %s' % (f, m))
    libflow.report(rep, l, 'C16')
    rep.cov.update({'paths': n1 + n2 + n3 + l['paths'], 'obligations': ob, 'functions_analysed': len(fns | w.I.visited | w3.I.visited | l['fns']), 'call_sites_interpreted': w.I.callsites + l['sites'],
                    'rule': 'search upwards from the file; first directory containing a file .luafmt*.lua; only if no format option is set; loaded on top of the given configuration',
                    'samples': sorted(fns)[:5]})
    rep.assumptions += TRUST + ['file names are valid UTF-8', 'a directory entry that cannot be read may end the search of its directory']
