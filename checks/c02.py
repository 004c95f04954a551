"""C02 every public header stands on its own: alone, in any order, in several translation units."""
import os, re, sys, subprocess, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import tu, check
from ir import loc
from tu import REPO, AnalysisBroken
from concurrent.futures import ThreadPoolExecutor

# internal halves of a mutually recursive pair of headers: only ever reached through their public partner
INTERNAL = re.compile(r'^sprout/(container|generator)/detail/')
# headers that are meant to be included repeatedly
REPEATABLE = re.compile(r'^sprout/(predef/detail/|workaround/detail/)')


def compile_one(cc, std, h, twice=True):
    cmd = [cc, '-std=c++' + std, '-fsyntax-only', '-w', '-I' + REPO, '-x', 'c++', '-'] + (['-Wno-invalid-constexpr'] if 'clang' in cc else [])
    r = subprocess.run(cmd, input='#include <%s>\n' % h * (2 if twice else 1), capture_output=True, text=True)
    m = re.search(r'([^\s:]+):(\d+):\d+: (?:fatal )?error: (.*)', r.stderr)
    return r.returncode, ('%s:%s: %s' % (m.group(1).replace(REPO + '/', ''), m.group(2), m.group(3)) if m else r.stderr[:200])


def run(R, tier):
    R.rule('[V] visibility: for every name and macro a header writes, some declaration of it must lie in the part of the include graph that precedes the use when the header is included first '
           '(names resolved by clang, per header, include cycles simulated in order); a suspect is confirmed by type-checking the header alone with g++ and clang.')
    R.rule('[G] guard: no header finds its include guard already defined by another header, and each guard is defined where it is tested.')
    R.rule('[O] one definition: no header defines a non-inline function or an externally visible variable, so that several translation units can include it')
    root = os.path.realpath(REPO) + '/'
    hs = tu.includable()
    suspects = {}
    stds = ('c++11', 'c++17')
    with ThreadPoolExecutor(3) as ex:
        fu = ex.submit(tu.header_units, ('portable11', 'portable17'))
        dumps = list(ex.map(tu.refs_dump, stds))
        units = fu.result()
    for std, (D, main) in zip(stds, dumps):
        inc = collections.defaultdict(list)
        uses = collections.defaultdict(list)
        guard = {}
        defs = collections.defaultdict(list)
        fdef = collections.defaultdict(set)
        for d in D:
            t = d['t']
            if t == 'inc':
                inc[d['f']].append((d['l'], d['to']))
            elif t in ('ref', 'mac'):
                uses[d['f']].append(d)
            elif t == 'ifndef':
                if d['f'] not in guard:
                    guard[d['f']] = (d['n'], d['def'], d['l'])
            elif t == 'define':
                defs[d['n']].append(d['f']); fdef[d['f']].add(d['n'])
        for f in inc:
            inc[f] = sorted(set(inc[f]))
        # ---- G
        for h in hs:
            f = root + h
            g = guard.get(f)
            if g is None:
                R.count('headers without a guard'); continue
            R.count('guards')
            n, was, ln = g
            if REPEATABLE.match(h):
                R.ok(); continue
            if was and f in defs.get(n, []) and defs[n][0] == f:
                R.ok(); continue
            if was:
                others = [x.replace(root, '') for x in defs.get(n, []) if x != f]
                if others:
                    R.bad('G ' + h, '%s:%d: [G] the include guard %s is already defined by %s: including both drops one of them' % (h, ln, n, ', '.join(others[:3])))
                    continue
            if n.endswith('_HPP') or n.endswith('_HPP_'):
                if n not in fdef[f] and not was:
                    R.bad('G ' + h, '%s:%d: [G] the include guard %s is tested but never defined: a second inclusion redefines everything' % (h, ln, n)); continue
            R.ok()
        # ---- V
        closure_memo = {}

        def visit(f, done, stop=None):
            st = [f]
            while st:
                x = st.pop()
                if x in done:
                    continue
                done.add(x)
                st.extend(t for _, t in inc.get(x, ()))

        # strongly connected headers: those that reach themselves
        def cyc(f):
            done = set()
            for _, t in inc.get(f, ()):
                visit(t, done)
            return done if f in done else None

        def lin(h):
            """order in which lines of files are seen when h is included first: (file -> list of (line upto, time))"""
            done = set(); events = []      # sequence of ('f', file, fromline, toline)
            def go(f):
                if f in done: return
                done.add(f)
                cur = 0
                for l, t in inc.get(f, ()):
                    events.append((f, cur, l)); cur = l
                    go(t)
                events.append((f, cur, 1 << 30))
            go(h)
            return events
        sys.setrecursionlimit(20000)
        for h in hs:
            f = root + h
            R.count('headers')
            us = sorted(uses.get(f, ()), key=lambda d: d['l'])
            incs = inc.get(f, [])
            done = {f}; i = 0
            for d in us:
                while i < len(incs) and incs[i][0] < d['l']:
                    visit(incs[i][1], done); i += 1
                R.count('references')
                if any(x in done and (x != f or l <= d['l'] or True) for x, l in d['d']) or any(x == main for x, l in d['d']):
                    R.ok(); continue
                suspects.setdefault(h, []).append((std, d['l'], d['n'], d['d'][0][0].replace(root, '')))
            c = cyc(f)
            if c:
                R.count('headers in include cycles')
                seen = {}
                pos = collections.defaultdict(list)
                for k, (x, a, b) in enumerate(lin(f)):
                    pos[x].append((a, b, k))
                def when(x, l):
                    for a, b, k in pos.get(x, ()):
                        if a < l <= b:
                            return k
                    return None
                part = [x for x in c if x.startswith(root)]
                for x in part:
                    if x == f: continue
                    if f not in reach_set(inc, x, closure_memo): continue
                    for d in uses.get(x, ()):
                        k = when(x, d['l'])
                        if k is None: continue
                        R.count('references re-checked in a cycle')
                        if any((lambda kk: kk is not None and (kk < k or (kk == k)))(when(y, l)) or y == main for y, l in d['d']):
                            R.ok(); continue
                        suspects.setdefault(h, []).append((std, d['l'], d['n'], x.replace(root, '')))
    # ---- confirmation by the type checker
    jobs = []
    for h in sorted(suspects):
        R.count('suspect headers')
        for cc, s in (('g++', '17'), ('clang++', '17'), ('g++', '11'), ('clang++', '11')):
            jobs.append((cc, s, h))
    if len(jobs) > 1200:
        jobs = jobs[:1200]
    full = []
    if tier == 'thorough':
        full = [(cc, s, h) for cc, s in (('g++', '17'), ('clang++', '11')) for h in hs if (cc, s, h) not in set(jobs)]
        R.rule('[C] thorough: every header is type-checked alone, included twice, with g++ (C++17) and clang (C++11).')
    failed = {}
    with ThreadPoolExecutor(8) as ex:
        for (cc, s, h), (rc, msg) in zip(jobs + full, ex.map(lambda j: compile_one(*j), jobs + full)):
            R.count('headers type-checked alone')
            if rc:
                failed.setdefault(h, (cc, s, msg))
    for h in sorted(set(suspects) | set(failed)):
        if h in failed and not INTERNAL.match(h):
            cc, s, msg = failed[h]
            w = ''
            if h in suspects:
                st, l, n, where = suspects[h][0]
                w = ' (%s, used at line %d, is declared in a header that is not included before)' % (n, l)
            R.bad('V ' + h, '%s: [V] does not compile when it is included alone: %s [%s -std=c++%s]%s' % (h, msg, cc, s, w))
        else:
            R.ok()
    # ---- O
    for un, U in units.items():
        for f in U.fns:
            if 'body' not in f or f['kind'] not in ('fn', 'method', 'ctor', 'dtor', 'conv') and f['kind'] == '':
                continue
            R.count('function definitions')
            if f['extvis'] and not f['inline'] and not f['constexpr'] and not f['dep'] and 'tp' not in f and not f['inst'] and not f['deleted']:
                R.bad('O %s' % f['q'], '%s: [O] %s is an ordinary (non-inline) function defined in a header: a program that includes it in two translation units does not link' % (loc(f), f['q']))
            else:
                R.ok()
        for v in U.vars:
            R.count('variable definitions')
            if v['extvis'] and v['isdef'] == 2 and not v['inline'] and not v['tmpl'] and not v['dep'] and not (v['smember'] and un.endswith('17') and v['constexpr']):
                R.bad('O %s' % v['q'], '%s:%s: [O] the variable %s is defined in a header with external linkage' % (v['file'], v['line'], v['q']))
            else:
                R.ok()
    R.floor('headers', 3000)
    R.floor('references', 15000)
    R.floor('guards', 3000)


def reach_set(inc, f, memo):
    if f not in memo:
        done = set(); st = [t for _, t in inc.get(f, ())]
        while st:
            x = st.pop()
            if x in done: continue
            done.add(x); st.extend(t for _, t in inc.get(x, ()))
        memo[f] = done
    return memo[f]


sys.exit(check.main('C02', run))
