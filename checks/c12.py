"""main is interpreted on argument lists of unknown strings, each a regular language that the program's own tests split; on every complete run the options set, the
modes and the paths looked up are compared with the documented meaning of arguments of those languages."""
import mainflow
from mainflow import coverage, report
def check(ctx, rep):
    r = mainflow.results(ctx)
    coverage(ctx, rep, r, '-i/-r/-v and their long forms switch on exactly their mode, --name=value sets that option, other options are reported, the rest are paths')
    report(rep, r, 'C12')
