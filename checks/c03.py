"""C03: the library is the same library in every configuration the user may choose."""
import os, re, sys, subprocess, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from concurrent.futures import ThreadPoolExecutor
import tu, wit
from check import main

# switches that are no configuration of this compiler, each with the reason
EXCLUDED = {
    'SPROUT_CONFIG_DISABLE_CONSTEXPR': 'for compilers without constant expressions; numeric/fft needs them for its types',
    'SPROUT_CONFIG_DISABLE_AUTO_CONFIG': 'the user then states by hand what the compiler can do, which differs between compilers',
    'SPROUT_CONFIG_DISABLE_USER_CONFIG': 'skips sprout/config/user_config.hpp, which is empty',
    'SPROUT_CONFIG_USE_SSCRISK_CEL': 'needs the library sscrisk/cel, not installed',
}
# witnesses that name what the pointer configuration replaces
POINTER = [
    (re.compile(r'^::sprout::char_traits(_helper)?<'), 'char_traits takes its character type only, where strings are iterated by pointers'),
    (re.compile(r'^::sprout::types::deref<sprout::array'), 'the iterator of an array is a pointer, not a class with a dereferenced type'),
]


def switches(R):
    p = os.path.join(tu.REPO, 'sprout/config/user_config.hpp')
    s = open(p, encoding='utf-8', errors='replace').read()
    m = sorted(set(re.findall(r'^//\s*#\s*define\s+(SPROUT_CONFIG_\w+)', s, re.M)))
    for x in EXCLUDED:
        if x in m: R.assume.append('%s is left out: %s.' % (x, EXCLUDED[x]))
    return [x for x in m if x not in EXCLUDED]


def check(R, tier):
    R.rule('All includable headers together parse, without errors, under each switch documented in sprout/config/user_config.hpp, under all DISABLE switches and under all FORCE switches together, with clang++ and g++, in '
           'C++11, C++14 and C++17 (the switches are read from the header, so a new one is covered as it appears).')
    R.rule('Every use in tables/witness.txt (a public template with archetype arguments) type-checks with all it instantiates where pointers are the iterators of arrays and strings and where every optional language and '
           'compiler feature is disabled, as it does by default (uses that name what a configuration replaces are listed in the check).')
    sw = switches(R)
    R.count('switches', len(sw))
    dis = [x for x in sw if '_DISABLE_' in x]
    groups = [[x] for x in sw]
    groups.append([x for x in dis])
    groups.append([x for x in dis if x != 'SPROUT_CONFIG_DISABLE_SUPPORT_TEMPORARY_CONTAINER_ITERATION'])
    groups.append([x for x in sw if '_FORCE_' in x])
    stds = ('c++17', 'c++11') if tier == 'quick' else ('c++17', 'c++14', 'c++11', 'c++20')
    os.makedirs(tu.BUILD, exist_ok=True)
    d = tempfile.mkdtemp(prefix='cfg', dir=tu.BUILD)
    try:
        src = os.path.join(d, 'all.cpp')
        with open(src, 'w') as f: f.write(tu.all_headers_src())
        jobs = []
        for g in groups:
            for std in stds:
                # a feature the language mode lacks cannot be forced on it
                if std == 'c++11' and any('FORCE_CXX14' in x or 'FORCE_VARIABLE' in x for x in g): continue
                if std == 'c++20' and len(g) > 1: continue
                for cc in ('clang++', 'g++'):
                    jobs.append((g, std, cc))

        def one(j):
            g, std, cc = j
            cmd = [cc, '-std=' + std, '-fsyntax-only', '-w', '-I' + tu.REPO] + ['-D' + x for x in g] + [src]
            if cc == 'clang++': cmd += ['-Wno-invalid-constexpr', '-ferror-limit=0', '-fno-caret-diagnostics', '-fno-color-diagnostics', '-fconstexpr-depth=4096', '-ftemplate-depth=2048']
            return j, subprocess.run(cmd, capture_output=True, text=True, errors='replace')
        told = {}
        with ThreadPoolExecutor(8) as ex:
            for (g, std, cc), r in ex.map(one, jobs):
                R.count('configurations parsed')
                errs = [l for l in r.stderr.splitlines() if re.search(r'\berror: ', l)]
                if r.returncode == 0: R.ok(); continue
                if r.returncode < 0 or not errs: raise tu.AnalysisBroken('%s ended abnormally: %s' % (cc, r.stderr[-300:]))
                for e in errs[:40]:
                    m = re.match(r'(.*?):(\d+):\d+: (?:fatal )?error: (.*)', e)
                    f = os.path.relpath(m.group(1), tu.REPO) if m else '?'
                    told.setdefault((f, m.group(2) if m else 0), []).append(('+'.join(x[14:] for x in g) if len(g) < 3 else '%d switches (%s...)' % (len(g), g[0][14:]), std, cc, m.group(3) if m else e))
        base = [x for k in told for x in told[k]]
        for (f, ln), xs in sorted(told.items()):
            g, std, cc, msg = xs[0]
            R.bad('%s %s' % (f, msg[:80]), '%s:%s: does not compile with %s (%s -std=%s%s): %s' % (f, ln, g, cc, std, ', and %d more' % (len(xs) - 1) if len(xs) > 1 else '', msg[:240]))
        if base: return
    finally:
        shutil.rmtree(d, ignore_errors=True)
    R.floor('switches', 20)
    R.floor('configurations parsed', 80)
    for mode in ('pointer', 'plain'):
        for std in ('c++17',) if tier == 'quick' else ('c++17', 'c++11'):
            witnesses(R, mode, std)
    R.floor('witnesses (pointer c++17)', 9000)


def witnesses(R, mode, std):
    W = [tuple(l.rstrip('\n').split(' ', 1)) for l in open(tu.VERIF + '/tables/witness.txt')]
    if mode == 'pointer': W = [(k, t) for k, t in W if not any(rx.match(t) for rx, _ in POINTER)]
    res = wit.typecheck(W, std=std, extra=tuple('-DSPROUT_CONFIG_' + m for m in tu.CONFIGS[mode]))
    bad = [(k, t, r) for (k, t), r in zip(W, res) if any('error: ' in x for x in r)]
    if bad:
        # only what works by default: the rest is for C28
        ref = wit.typecheck([(k, t) for k, t, _ in bad], std=std)
        bad = [b for b, r in zip(bad, ref) if not any('error: ' in x for x in r)]
    R.count('witnesses (%s %s)' % (mode, std), len(W))
    R.ok(len(W) - len(bad))
    told = set()
    for k, t, r in bad:
        r = [x for x in r if 'error: ' in x]
        key = '%s: %s' % (mode, re.sub(r'^\S+?\.cpp:\d+', 'use', r[0])[:150])
        if key in told: continue
        told.add(key)
        R.bad(key, '%s: the use %s does not type-check with %s (-std=%s), though it does by default' % (r[0][:260], t[:160], ', '.join(tu.CONFIGS[mode][:2]), std))


if __name__ == '__main__':
    sys.exit(main('C03', check))
