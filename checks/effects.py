"""call sites of operations with effects outside the process, in the whole program"""
import re
FILES = re.compile(r'^(std::fs::|std::fs::File::|std::fs::OpenOptions|std::process::Command|std::os::|std::net::|std::fs::DirBuilder)')
READ = re.compile(r'^std::fs::(read_to_string|read|read_dir|canonicalize|metadata|DirEntry::\w+|Metadata::\w+|ReadDir.*|FileType::\w+|symlink_metadata|File::open|read_link)$')
def callees(P, f):
    for b in f.bb:
        if b is None: continue
        t = b[1]
        if t[0] == 'call' and t[1][0] != 'ind':
            yield t[1][1], t[5]
def program(P):
    """functions of the program that are not tests"""
    for k, r in P.raw.items():
        if not r['ours'] or '/test' in r['file'] or re.search(r'(^|::)(test|tests)(::|$)|_test(::|\.)', k) or '_test.rs' in r['file']: continue
        if k.split('::')[-1].startswith('test_') and r['argc'] == 0: continue
        yield k, r
def files(ctx, interpreted):
    P = ctx.prog; bad = []; n = 0
    for k, r in program(P):
        n += 1
        if r['file'].endswith('src/main.rs') and (k in interpreted or r['closure']): continue     # judged path by path
        if 'std::fs' not in str(r['bb']) and 'Command' not in str(r['bb']): continue
        for c, ln in callees(P, P.fn(k)):
            nm = c.r or c.p or ''
            if FILES.match(nm) and not READ.match(nm) and not nm.startswith('std::os::'):
                bad.append(('%s calls %s' % (k, nm), '%s (%s:%s) calls %s' % (k, r['file'], ln, nm)))
    return n, bad
