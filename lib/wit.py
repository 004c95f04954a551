"""Type-checks instantiation witnesses with clang -fsyntax-only and attributes every diagnostic to its witness."""
import os, re, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
import tu


def text(k, t, i):
    if k == 'f':
        return 'inline void w%d() { (void)%s; }' % (i, t)
    if k == 'c':
        return 'template class %s;' % t
    c, e = t.split(' | ', 1)
    return 'namespace m%d { typedef %s K; inline void w() { (void)%s; } }' % (i, c, e)


HEAD = re.compile(r'^([^:\n]+):(\d+):\d+: (fatal error|error|warning|note): (.*)$')


def pch(flags, std, d):
    src = os.path.join(d, 'all.hpp')
    with open(src, 'w') as f:
        f.write(tu.all_headers_src() + '#include <arch.hpp>\n')
    r = subprocess.run(['clang++-18' if shutil.which('clang++-18') else 'clang++', '-x', 'c++-header', src, '-o', src + '.pch'] + flags, capture_output=True, text=True)
    if r.returncode:
        raise tu.AnalysisBroken('the headers do not parse: ' + '; '.join(l for l in r.stderr.splitlines() if 'error' in l)[:600])
    return src


def typecheck(ws, std='c++17', warnings=(), shards=8, size=None, extra=()):
    """ws: list of (kind, text) -> list of diagnostics per witness (each 'file:line: severity: message')"""
    os.makedirs(tu.BUILD, exist_ok=True)
    d = tempfile.mkdtemp(prefix='wit', dir=tu.BUILD)
    flags = ['-std=' + std, '-I' + tu.REPO, '-I' + os.path.join(tu.VERIF, 'zoo'), '-Wno-invalid-constexpr', '-ftemplate-depth=2048', '-fconstexpr-depth=4096', '-fno-caret-diagnostics', '-fno-color-diagnostics', '-ferror-limit=0', '-ftemplate-backtrace-limit=0', '-fno-spell-checking'] + (list(warnings) or ['-w']) + list(extra)
    res = [[] for _ in ws]
    try:
        h = pch(flags, std, d)
        idx = list(range(len(ws)))
        parts = [idx[j::shards] for j in range(shards)]

        def one(j):
            part = parts[j]
            if not part: return
            src = os.path.join(d, 's%d.cpp' % j)
            with open(src, 'w') as f:
                f.write('\n'.join(text(ws[i][0], ws[i][1], i) for i in part) + '\n')
            r = subprocess.run(['clang++-18' if shutil.which('clang++-18') else 'clang++', '-fsyntax-only', '-include-pch', h + '.pch', src] + flags, capture_output=True, text=True)
            if r.returncode < 0 or 'PLEASE submit a bug report' in r.stderr:
                raise tu.AnalysisBroken('the compiler ended abnormally on shard %d: %s' % (j, r.stderr[-300:]))
            cur = None; line = None

            def flush():
                if cur is None: return
                if line is None:
                    loose.append(cur)
                else:
                    res[part[line - 1]].append(cur)
            loose = []
            pending = []
            for l in r.stderr.splitlines():
                m = HEAD.match(l)
                if not m: continue
                fn, ln, sev, msg = m.groups()
                if sev != 'note':
                    flush()
                    cur = '%s:%s: %s: %s' % (os.path.relpath(fn, tu.REPO) if fn.startswith('/') and fn != src else os.path.basename(fn), ln, sev, msg)
                    line = int(ln) if fn == src else None
                elif fn == src and line is None:
                    line = int(ln)
            flush()
            res_loose[j] = loose
        res_loose = [[] for _ in range(shards)]
        with ThreadPoolExecutor(shards) as ex:
            list(ex.map(one, range(shards)))
        typecheck.loose = [x for l in res_loose for x in l]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res
