"""Every complete run of main, the library entry points and every construct's writer are interpreted with each step that can fail followed both ways: a failure gives
exactly one message on standard error, no output, and the remaining inputs are still processed; an error of a nested piece reaches the caller of the writer."""
import mainflow, libflow, base
def check(ctx, rep):
    r = mainflow.results(ctx); l = libflow.results(ctx)
    mainflow.report(rep, r, 'C14'); libflow.report(rep, l, 'C14')
    rs = base.results(ctx)
    base.coverage(ctx, rep, rs, 'each failure followed to the end of the run: one message per failure, no output for it; writer errors are passed up')
    mainflow.coverage(ctx, rep, r, 'each failure followed to the end of the run: one message per failure, no output for it; writer errors are passed up')
    rep.cov['library_paths'] = l['paths']
    for x in rs:
        for k, m in x['bad']:
            if k == 'err': base.report(rep, x, m)
