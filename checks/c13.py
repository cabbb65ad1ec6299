"""Every complete run of main on unknown arguments, and the library entry points, are interpreted with every file operation recorded: a file is written only in
in-place mode, once, after formatting succeeded, at the path formatted and with the text returned. All other code is searched for file system operations."""
import mainflow, libflow, effects
def check(ctx, rep):
    r = mainflow.results(ctx); l = libflow.results(ctx)
    mainflow.coverage(ctx, rep, r, 'writes = {(file, its formatted text)} in in-place mode, none otherwise; no other file system change anywhere')
    mainflow.report(rep, r, 'C13'); libflow.report(rep, l, 'C13')
    rep.cov['library_paths'] = l['paths']
    n, bad = effects.files(ctx, set(r['fns']))
    rep.cov['functions_searched_for_file_operations'] = n
    for k, m in bad: rep.bad(k, m)
