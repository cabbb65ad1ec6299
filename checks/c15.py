"""The MIR of the file search is interpreted on an unknown path: every combination of file kinds, extensions, names and read failures of up to two entries
(three in the thorough tier), with and without recursion; the list returned is compared with the documented selection. main's use of it is taken from its runs."""
import filesearch, mainflow
from progcfg import TRUST
def check(ctx, rep):
    bad, unclear, n, ob, fns, sites = filesearch.path_files(ctx)
    r = mainflow.results(ctx)
    rep.cov.update({'paths': n, 'obligations': ob, 'main_runs': r['paths'], 'functions_analysed': len(fns), 'call_sites_interpreted': sites,
                    'rule': 'a file selects itself; a directory selects entries that are files with extension lua and a name not starting with .luafmt, and what its subdirectories select in recursive mode; failures are errors',
                    'samples': sorted(fns)[:5]})
    for u in unclear: rep.unclear(u)
    for m in bad: rep.bad(m, 'get_path_files: ' + m)
    mainflow.report(rep, r, 'C15')
    rep.assumptions += TRUST + ['file names are valid UTF-8']
