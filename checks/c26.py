#!/usr/bin/env python3
"""C26: loops and recursions make progress and their parts cover the whole."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import tu, ir, terms
from check import Report, main
from collections import defaultdict


# ------------------------------------------------------------------ linear forms
def lin(t, sub=None):
    """term -> dict atom -> coefficient (None: constant).  Iterator steps are additions; x/2 is an atom over its own linear form."""
    if not isinstance(t, tuple):
        return {('?', t): 1}
    k = t[0]
    if k == 'p' and sub is not None:
        return dict(sub[t[1]])
    if k == 'lit' and t[1] == 'int':
        try:
            v = int(t[2])
        except ValueError:
            return {t: 1}
        return {None: v} if v else {}
    if k == 'cast':
        return lin(t[2], sub)
    if k == 'new' and len(t[2]) == 1 and 'type-parameter' not in t[1]:
        return lin(t[2][0], sub)
    if k == 'op':
        o, xs = t[1], t[2]
        if o == '+' and len(xs) == 2:
            return add(lin(xs[0], sub), lin(xs[1], sub))
        if o == '-' and len(xs) == 2:
            return add(lin(xs[0], sub), lin(xs[1], sub), -1)
        if o == 'u-':
            return add({}, lin(xs[0], sub), -1)
        if o == '*' and len(xs) == 2:
            a, b = lin(xs[0], sub), lin(xs[1], sub)
            for a, b in ((a, b), (b, a)):
                if set(a) <= {None}:
                    c = a.get(None, 0)
                    return {x: v * c for x, v in b.items() if v * c}
        if o in ('/', '>>') and len(xs) == 2:
            b = lin(xs[1], sub)
            want = 2 if o == '/' else 1
            if b == {None: want}:
                a = lin(xs[0], sub)
                if set(a) <= {None}:
                    c = a.get(None, 0)
                    return {None: int(c / 2)} if int(c / 2) else {}
                return {('half', frozenset(a.items())): 1}
        return {('op', o, tuple(frozenset(lin(x, sub).items()) for x in xs)): 1}
    if k == 'call':
        n = t[1].split('::')[-1]
        a = t[3]
        if n == 'next' and len(a) == 2:
            return add(lin(a[0], sub), lin(a[1], sub))
        if n == 'next' and len(a) == 1:
            return add(lin(a[0], sub), {None: 1})
        if n == 'prev' and len(a) == 2:
            return add(lin(a[0], sub), lin(a[1], sub), -1)
        if n == 'prev' and len(a) == 1:
            return add(lin(a[0], sub), {None: -1})
        if n in ('distance', 'iterator_distance') and len(a) == 2:
            return add(lin(a[1], sub), lin(a[0], sub), -1)
        return {('call', t[1], t[2], tuple(frozenset(lin(x, sub).items()) for x in a)): 1}
    if k == 'f':
        return {('f', t[1], frozenset(lin(t[2], sub).items())): 1}
    if k == 'm':
        return {('m', t[1], frozenset(lin(t[2], sub).items()), tuple(frozenset(lin(x, sub).items()) for x in t[3])): 1}
    if sub is not None and params_of(t):
        return {('sub', t, tuple(sorted((i, frozenset(sub[i].items())) for i in params_of(t) if i in sub))): 1}
    return {t: 1}


def add(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
        if not r[k]:
            del r[k]
    return r


def params_of(t):
    return {x[1] for x in terms.subterms(t) if x[0] == 'p' and len(x) == 2 and isinstance(x[1], int)}


def P(i):
    return {('p', i): 1}


def half(l):
    if set(l) <= {None}:
        c = int(l.get(None, 0) / 2)
        return {None: c} if c else {}
    return {('half', frozenset(l.items())): 1}


def showl(l):
    def at(a):
        if a is None:
            return ''
        if a[0] == 'p':
            return '$%d' % a[1]
        if a[0] == 'half':
            return '(%s)/2' % showl(dict(a[1]))
        return a[1] if isinstance(a[1], str) else str(a[0])
    s = ''
    for a, c in sorted(l.items(), key=lambda x: str(x[0])):
        x = at(a)
        s += (' + ' if c > 0 else ' - ') + (str(abs(c)) if not x else x if abs(c) == 1 else '%d*%s' % (abs(c), x))
    s = s.strip()
    return (s[2:] if s.startswith('+ ') else s) or '0'


# ------------------------------------------------------------------ self calls with their guards
def paths(t, f, g=()):
    if not isinstance(t, tuple) or not t:
        return
    q, n = f['q'], len(f['params'])
    if isinstance(t[0], str):
        if t[0] == 'cond':
            yield from paths(t[1], f, g)
            yield from paths(t[2], f, g + ((t[1], True),))
            yield from paths(t[3], f, g + ((t[1], False),))
            return
        if t[0] == 'op' and t[1] in ('&&', '||') and len(t[2]) == 2:
            yield from paths(t[2][0], f, g)
            yield from paths(t[2][1], f, g + ((t[2][0], t[1] == '&&'),))
            return
        if t[0] == 'call' and t[1] == q and fit(f, t[3]) is not None:
            yield g, t[2], fit(f, t[3]), None
        elif t[0] == 'm' and t[1] == q.split('::')[-1] and f.get('clsq') and fit(f, t[3]) is not None:
            yield g, '', fit(f, t[3]), t[2]
    for x in t:
        if isinstance(x, tuple):
            yield from paths(x, f, g)


def fit(f, xs):
    """arguments by parameter; defaulted and packed ones unknown"""
    ps = f['params']
    m = next((i for i, p in enumerate(ps) if p[5]), None)
    if m is None:
        if len(xs) > len(ps) or any(x[0] == 'pack' for x in xs):
            return None
        if len(xs) < len(ps):
            if not all(p[4] for p in ps[len(xs):]):
                return None
            return xs + tuple(('unk', 'default %d' % i) for i in range(len(xs), len(ps)))
        return xs
    if m != len(ps) - 1 or len(xs) < m or any(x[0] == 'pack' for x in xs[:m]):
        return None
    return xs[:m] + (('unk', 'pack'),)


def literals(g):
    """guard list -> list of primitive (term, polarity) that all hold on the path"""
    out = []
    st = list(g)
    while st:
        t, p = st.pop()
        if t[0] == 'op' and t[1] == 'u!':
            st.append((t[2][0], not p))
        elif t[0] == 'op' and t[1] == '&&' and p:
            st += [(x, True) for x in t[2]]
        elif t[0] == 'op' and t[1] == '||' and not p:
            st += [(x, False) for x in t[2]]
        else:
            out.append((t, p))
    return out


def sccs(g):
    import itertools
    idx, low, on, st, out = {}, {}, set(), [], []
    c = itertools.count()
    for r in list(g):
        if r in idx:
            continue
        work = [(r, iter(g.get(r, ())))]
        idx[r] = low[r] = next(c); st.append(r); on.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = next(c); st.append(w); on.add(w)
                    work.append((w, iter(g.get(w, ()))))
                    break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        w = st.pop(); on.discard(w); comp.append(w)
                        if w == v:
                            break
                    if len(comp) > 1 or v in g.get(v, ()):
                        out.append(comp)
    return out


def pname(f, i):
    return f['params'][i][0] or '#%d' % i


# ------------------------------------------------------------------ recursion
def split_rule(R, f, A, B, key, GA=(), GB=()):
    """A, B: argument linear forms of two self calls on one path.  True when the pair is a recognised split."""
    n = len(A)
    # a range [i, j) cut at a middle: A = [pi, m), B = [m, pj)
    for i in range(n):
        for j in range(n):
            if i == j or A[i] != P(i) or B[j] != P(j):
                continue
            if A[j] == P(j) or B[i] == P(i):
                continue
            # the cut depends on the lower bound (m = pi + something)
            if ('p', i) not in flat(A[j]) and ('p', i) not in flat(B[i]):
                continue
            if not related(f, i, j):
                continue
            if A[j] == B[i]:
                R.ok(); R.count('range splits')
                pv = pivot_of(f, A, B, i, j)
                if pv is not None:
                    for G in (GA, GB):
                        cs = [cmp_forms(t, p) for t, p in literals(G)]
                        cs = [(c[0], add(lin(c[1]), lin(c[2]), -1)) for c in cs if c]
                        cs = [(o, d) for o, d in cs if set(d) - {None} == {('p', pv)} and abs(d[('p', pv)]) == 1]
                        cs = [(o, d.get(None, 0)) if d[('p', pv)] == 1 else ({'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(o, o), -d.get(None, 0)) for o, d in cs]
                        if not cs:
                            continue
                        if any(c in (('!=', 0), ('>', 0), ('>=', -1)) for c in cs):
                            R.ok(); R.count('split recursions that stop at one element')
                        else:
                            R.bad(key + ' base', '%s: the range is split while %s %s %d: a range of one element has pivot 0 and a longer one does not' % (ir.loc(f), pname(f, pv), cs[0][0], -cs[0][1]))
                    for X, nm in ((A, 'first'), (B, 'second')):
                        size = add(X[j], X[i], -1)
                        if pv == 'none':
                            continue
                        want = half(size)
                        if X[pv] == want:
                            R.ok(); R.count('pivots of split ranges')
                        elif any(isinstance(a, tuple) and a[0] not in ('p', 'half') for a in X[pv]):
                            R.undecided('pivot of %s' % key)
                        else:
                            R.bad(key + ' pivot of the %s part' % nm, '%s: the %s part [%s, %s) is given the pivot %s instead of half its size' % (ir.loc(f), nm, showl(X[i]), showl(X[j]), showl(X[pv])))
            else:
                R.bad(key + ' range split', '%s: recursion covers [%s, %s) and [%s, %s): the parts of [%s, %s) do not meet' % (
                    ir.loc(f), showl(A[i]), showl(A[j]), showl(B[i]), showl(B[j]), pname(f, i), pname(f, j)))
            return True
    return False


def related(f, i, j):
    """two parameters that delimit a range: same type and lower before upper"""
    return f['params'][i][3] == f['params'][j][3]


def flat(l):
    out = set()
    st = list(l)
    while st:
        a = st.pop()
        if isinstance(a, tuple):
            if len(a) == 2 and a[0] == 'p' and isinstance(a[1], int):
                out.add(a)
            else:
                st += [x for x in a if isinstance(x, (tuple, frozenset))]
        elif isinstance(a, frozenset):
            st += list(a)
    return out


def pivot_of(f, A, B, i, j):
    d = add(A[j], P(i), -1)
    for k in range(len(A)):
        if k not in (i, j) and d == P(k):
            return k
    return None


def count_rule(R, f, A, B, key, driver):
    """counts: A[k] and B[k] must add up to the count when the second part starts where the first ends"""
    n = len(A)
    hit = False
    for k in range(n):
        h = half(P(k))
        ha = any(isinstance(a, tuple) and a[0] == 'half' and ('p', k) in flat({a: 1}) for a in A[k])
        hb = any(isinstance(a, tuple) and a[0] == 'half' and ('p', k) in flat({a: 1}) for a in B[k])
        if not (ha and hb) or not (flat(A[k]) <= {('p', k)} and flat(B[k]) <= {('p', k)}):
            continue
        s = add(A[k], B[k])
        # offsets: some iterator or index advances by the size of the part before
        offs = []
        for i in range(n):
            if i == k:
                continue
            d = add(B[i], A[i], -1)
            if A[i] == P(i) and d and flat(d) == {('p', k)} and all(a is None or (isinstance(a, tuple) and a[0] in ('half', 'p')) for a in d):
                offs.append((i, d))
        hit = True
        if s == P(k) or normhalf(s, k) == P(k):
            R.ok(); R.count('count splits')
        elif driver and not offs:
            R.ok(); R.count('count splits under a doubling driver')
        else:
            R.bad(key + ' counts', '%s: the recursion does %s and %s of %s: together not the whole' % (ir.loc(f), showl(A[k]), showl(B[k]), pname(f, k)))
        for i, d in offs:
            if d == A[k]:
                R.ok(); R.count('offsets of the second part')
            else:
                R.bad(key + ' offset of ' + pname(f, i), '%s: the first part takes %s of %s, but the second starts %s further on' % (ir.loc(f), showl(A[k]), pname(f, k), showl(d)))
    return hit


def normhalf(s, k):
    """(k+1)/2 == k - k/2 for non-negative k"""
    r = dict(s)
    a = ('half', frozenset({('p', k): 1, None: 1}.items()))
    if a in r:
        c = r.pop(a)
        r = add(r, add(P(k), half(P(k)), -1), c)
    return r


def cmp_forms(t, p):
    """comparison literal -> (relation holding on the path, left - right)"""
    if t[0] == 'op' and len(t[2]) == 2 and t[1] in ('==', '!=', '<', '<=', '>', '>='):
        o = t[1]
        if not p:
            o = {'==': '!=', '!=': '==', '<': '>=', '<=': '>', '>': '<=', '>=': '<'}[o]
        return o, t[2][0], t[2][1]
    if t[0] == 'call' and len(t[3]) == 2:
        n = t[1].split('::')[-1]
        o = {'equal_to': '==', 'not_equal_to': '!=', 'less': '<', 'less_equal': '<=', 'greater': '>', 'greater_equal': '>='}.get(n)
        if o and '::math::' in t[1]:
            if not p:
                o = {'==': '!=', '!=': '==', '<': '>=', '<=': '>', '>': '<=', '>=': '<'}[o]
            return o, t[3][0], t[3][1]
    return None


def progress_rule(R, f, guards, args, key, targs, obj, overloads=1):
    L = literals(guards)
    used = set()
    for t, p in L:
        used |= params_of(t)
    if not L:
        return
    A = [lin(a) for a in args]
    if targs or obj not in (None, ('this',)):
        R.count('recursions that change a template argument or the object')
        return
    thisdep = any(x == ('this',) for t, p in L for x in terms.subterms(t))
    if not used:
        return
    changed = {i for i in used if A[i] != P(i)}
    if not changed:
        if thisdep:
            return
        if overloads > 1:
            R.undecided('%s may call another overload' % key)
            return
        R.bad(key + ' progress', '%s: calls itself with the same %s that decide%s whether it goes on' % (ir.loc(f), ', '.join(pname(f, i) for i in sorted(used)), 's' if len(used) == 1 else ''))
        return
    R.ok(); R.count('recursive calls whose guard changes')
    sub = {i: A[i] for i in range(len(A))}
    good, wrong = 0, []
    for t, p in L:
        c = cmp_forms(t, p)
        if not c:
            continue
        o, a, b = c
        la, lb = lin(a), lin(b)
        d0 = add(la, lb, -1)
        d1 = add(lin(a, sub), lin(b, sub), -1)
        delta = add(d1, d0, -1)
        if not delta or set(delta) != {None}:
            continue
        dv = delta[None]
        if o in ('<', '<='):
            want = 1
        elif o in ('>', '>='):
            want = -1
        elif o == '!=':
            want = sign(f, d0)
        else:
            continue
        if want is None:
            R.count('steps of unknown direction')
            continue
        if dv * want > 0:
            good += 1
            R.ok(); R.count('steps towards the bound')
            if o == '!=' and abs(dv) != 1 and all(f['params'][k[1]][3].replace('const ', '').startswith('type-parameter') for k in d0 if k):
                R.bad(key + ' stride', '%s: %s changes by %d per step and is tested with %s: it can jump over the bound' % (ir.loc(f), showl(d0), dv, terms.show(t, 80)))
        elif any(x[0] != t and params_of(x[0]) & {i for i in range(len(A)) if A[i] != P(i)} and not cmp_forms(*x) for x in L):
            R.count('steps of unknown direction')
        else:
            wrong.append((key + ' direction', '%s: goes on while %s %s %s, but each step moves away from the bound (%s changes by %+d)' % (ir.loc(f), terms.show(a, 60), o, terms.show(b, 60), showl(d0), dv)))
    if not good:
        for k, msg in wrong[:1]:
            R.bad(k, msg)


def sign(f, d):
    """direction in which the difference d (which is not yet 0) has to move"""
    c = d.get(None, 0)
    ps = {k: v for k, v in d.items() if k is not None}
    if len(ps) == 1:
        (k, v), = ps.items()
        if k[0] != 'p':
            return None
        nm = pname(f, k[1])
        if c in (0, -1) and v == 1:
            return -1          # n != 0, n != 1: a count going down
        if c in (0, 1) and v == -1:
            return 1
        return None
    if len(ps) == 2 and c == 0 and all(k[0] == 'p' for k in ps) and sorted(ps.values()) == [-1, 1]:
        (i,), (j,) = [[k[1] for k, v in ps.items() if v == s] for s in (1, -1)]
        a, b = pname(f, i), pname(f, j)
        lo, up = role(a), role(b)
        if lo == 'lower' and up == 'upper':
            return 1
        if lo == 'upper' and up == 'lower':
            return -1
    return None


def role(n):
    n = n.rstrip('_0123456789').lower()
    if n in ('first', 'begin', 'it', 'current', 'i', 'result_first'):
        return 'lower'
    if n in ('last', 'end', 'size', 'len', 'length', 'count', 'result_last'):
        return 'upper'
    return None


def lone_iterators(f):
    """iterator parameters with no other parameter of the same type: sequences walked in step with another"""
    by = defaultdict(list)
    for i, p in enumerate(f['params']):
        if not p[5]:
            by[p[3].replace('const ', '').replace(' &', '').strip()].append(i)
    return {v[0] for k, v in by.items() if len(v) == 1 and k.startswith('type-parameter')}


def derefs(t):
    for x in terms.subterms(t):
        if x[0] == 'op' and x[1] == 'u*' and len(x[2]) == 1:
            yield x[2][0]


def recursion(R, U, fns, new):
    g = defaultdict(set)
    callers = defaultdict(list)
    for f in fns:
        for s in ir.sites(f):
            for d in s.cands:
                if not isinstance(d, dict):
                    d = U.byid.get(d)
                if d and d.get('t') == 'fn' and 'body' in d and ir.arity_ok(d, len(s.args), ir.has_pack(s.args)):
                    g[f['id']].add(d['id'])
                    callers[d['id']].append(f)
    comps = sccs(g)
    nover = defaultdict(int)
    for f in U.fns:
        if not f.get('inst'):
            nover[(f['q'], len(f['params']))] += 1
    R.count('recursive groups', len(comps))
    pivots = {}
    info = {}
    for c in comps:
        ids = set(c)
        for fid in c:
            f = U.byid[fid]
            if f['q'].split('::')[-1].startswith('operator'):
                continue
            ev = terms.Evaluator(U, inline=lambda d, depth: d['id'] in ids and d['id'] != fid, maxdepth=8)
            try:
                o = ev.function(f)
            except (terms.Give, terms.TooBig):
                R.count('recursive functions not reduced to a term')
                continue
            ps = list(paths(o, f))
            if ps:
                info[fid] = (f, o, ps)
    doubling = set()
    for fid, (f, o, ps) in info.items():
        for _, _, args, _ in ps:
            for k, a in enumerate(args):
                if lin(a) == {('p', k): 2}:
                    doubling.add(f['q'])
    for fid, (f, o, ps) in sorted(info.items(), key=lambda x: ir.sig(x[1][0])):
        key = ir.sig(f)
        if fid not in new:
            note_pivot(f, ps, pivots)
            continue
        R.count('recursive functions')
        driver = any(x['q'] in doubling for x in callers[fid] if x['id'] != fid)
        seen = set()
        for gd, targs, args, obj in ps:
            if (gd, args) in seen:
                continue
            seen.add((gd, args))
            progress_rule(R, f, gd, args, key, targs, obj, nover[(f['q'], len(f['params']))])
        # calls that happen together (one nested in the other or both on one path)
        forms = []
        for gd, targs, args, obj in ps:
            if targs:
                continue
            forms.append((gd, [lin(a) for a in args], args))
        done = set()
        for a in range(len(forms)):
            for b in range(len(forms)):
                if a == b:
                    continue
                ga, A, xa = forms[a]
                gb, B, xb = forms[b]
                if A == B or not together(ga, gb):
                    continue
                if (str(A), str(B)) in done:
                    continue
                done.add((str(A), str(B)))
                done.add((str(B), str(A)))
                if not split_rule(R, f, A, B, key, ga, gb) and not split_rule(R, f, B, A, key, gb, ga):
                    o1 = order(A, B)
                    X, Y = (A, B) if o1 else (B, A)
                    if not count_rule(R, f, X, Y, key, driver):
                        R.count('pairs of self calls of another kind')
        base_rule(R, f, forms, key)
        lone_rule(R, f, o, ps, key)
        consumed_rule(R, f, o, ps, key)
        walk_rule(R, f, o, ps, key)
        search_rule(R, f, o, ps, key)
        note_pivot(f, ps, pivots)
    return pivots, info, callers


def note_pivot(f, ps, pivots):
    for gd, targs, args, obj in ps:
        if targs:
            continue
        A = [lin(a) for a in args]
        for i in range(len(A)):
            for j in range(len(A)):
                if i != j and related(f, i, j) and A[i] == P(i):
                    k = [k for k in range(len(A)) if k not in (i, j) and A[j] == add(P(i), P(k))]
                    if k:
                        pivots[f['q']] = (f, (i, j, k[0]))
                        return


def together(ga, gb):
    """two paths of one evaluation: no condition taken both ways"""
    a = {t: p for t, p in ga}
    return not any(t in a and a[t] != p for t, p in gb)


def order(A, B):
    """the part that starts at the parameter itself comes first"""
    na = sum(1 for i in range(len(A)) if A[i] == P(i))
    nb = sum(1 for i in range(len(B)) if B[i] == P(i))
    return na >= nb


def base_rule(R, f, forms, key):
    """a recursion that halves has to stop where halving stops changing anything"""
    for g, A, x in forms:
        L = literals(g)
        for k in range(len(A)):
            if A[k] == half(P(k)) or A[k] == add(P(k), half(P(k)), -1) or A[k] == half(add(P(k), {None: 1})):
                up = A[k] != half(P(k))
                # n -> n - n/2 stays 1 at 1; n -> n/2 stays 0 at 0
                low = 1 if up else 0
                stops = []
                unknown = False
                for t, p in L:
                    if k not in params_of(t):
                        continue
                    c = cmp_forms(t, p)
                    if not c:
                        if t == ('p', k) and p:
                            stops.append(0)
                        else:
                            unknown = True
                        continue
                    o, a, b = c
                    d = add(lin(a), lin(b), -1)
                    if set(d) - {None} == {('p', k)}:
                        v, cst = d[('p', k)], d.get(None, 0)
                        if v == -1:
                            v, cst, o = 1, -cst, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(o, o)
                        if v == 1:
                            bound = -cst
                            if o == '!=':
                                stops.append(bound)
                            elif o == '>':
                                stops += [x for x in (0, 1) if x <= bound]
                            elif o == '>=':
                                stops += [x for x in (0, 1) if x < bound]
                            else:
                                unknown = True
                        else:
                            unknown = True
                    else:
                        unknown = True
                if low in stops or -1 in stops:
                    R.ok(); R.count('halving recursions that stop')
                elif unknown or not L:
                    R.count('halving recursions ended by another condition')
                elif low == 0 and 1 in stops:
                    # n/2 of n >= 2 is at least 1
                    R.ok(); R.count('halving recursions that stop')
                elif any(params_of(t) for t, p in L) and not stops:
                    # ended by something else that changes (progress rule)
                    R.count('halving recursions ended by another condition')
                else:
                    R.bad(key + ' base of ' + pname(f, k), '%s: %s becomes %s, which is %s again at %s, but the recursion stops only at %s' % (ir.loc(f), pname(f, k), showl(A[k]), low, low, stops))


def lone_rule(R, f, o, ps, key):
    lone = lone_iterators(f)
    if not lone:
        return
    dr = set()
    for x in derefs(o):
        if x[0] == 'p':
            dr.add(x[1])
    for i in sorted(lone & dr):
        moved = kept = 0
        for g, targs, args, obj in ps:
            A = [lin(a) for a in args]
            adv = [j for j in range(len(A)) if j != i and j < len(f['params']) and f['params'][j][3].replace('const ', '').startswith('type-parameter') and A[j] == add(P(j), {None: 1})]
            if not adv:
                continue
            if A[i] == P(i):
                kept += 1
            else:
                moved += 1
        if kept:
            R.bad(key + ' in step ' + pname(f, i), '%s: %s is read on each step but is not advanced with the others in a recursive call' % (ir.loc(f), pname(f, i)))
        elif moved:
            R.ok(); R.count('sequences walked in step (recursion)')


def consumed_rule(R, f, o, ps, key):
    """an element taken into the result by a self call is passed over by that call"""
    q = f['q']
    moving = {i for g, targs, args, obj in ps for i, a in enumerate(args) if lin(a) != P(i)}
    for x in terms.subterms(o):
        if x[0] != 'call' or x[1] != q or fit(f, x[3]) is None:
            continue
        A = fit(f, x[3])
        for a in x[3]:
            while a[0] == 'cast' or (a[0] == 'call' and a[1].split('::')[-1] in ('move', 'forward') and len(a[3]) == 1):
                a = a[2] if a[0] == 'cast' else a[3][0]
            if a[0] == 'op' and a[1] == 'u*' and a[2][0][0] == 'p':
                i = a[2][0][1]
                if i in moving and i < len(A):
                    if lin(A[i]) == P(i):
                        R.bad(key + ' consumed ' + pname(f, i), '%s: hands *%s on as an element of the result and %s itself unchanged: the element is taken again' % (ir.loc(f), pname(f, i), pname(f, i)))
                    else:
                        R.ok(); R.count('elements consumed')


def walk_rule(R, f, o, ps, key):
    """a self call under first != last moves first (or last, or both halves), one under n != 0 changes n"""
    dr = {x[1] for x in derefs(o) if x[0] == 'p'}
    varies = {i for g, targs, args, obj in ps for i, a in enumerate(args) if lin(a) != P(i)}
    for g, targs, args, obj in ps:
        if targs or obj not in (None, ('this',)):
            continue
        A = [lin(a) for a in args]
        prs, cnt = [], []
        for t, p in literals(g):
            c = cmp_forms(t, p)
            if not c or c[0] not in ('!=', '<'):
                continue
            d = add(lin(c[1]), lin(c[2]), -1)
            ks = [k for k in d if k is not None]
            if len(ks) == 2 and not d.get(None) and all(k[0] == 'p' for k in ks) and sorted(d.values()) == [-1, 1] and related(f, ks[0][1], ks[1][1]):
                prs.append((ks[0][1], ks[1][1]))
            elif len(ks) == 1 and ks[0][0] == 'p' and d.get(None, 0) in (0, 1, -1) and pname(f, ks[0][1]) in ('n', 'len', 'count'):
                cnt.append(ks[0][1])
        prs = [x for x in prs if set(x) & dr]
        if prs:
            if any(A[i] != P(i) for x in prs for i in x):
                R.ok(); R.count('self calls that move their range')
            else:
                R.bad(key + ' stays at ' + pname(f, min(prs[0])), '%s: goes on while %s differs from %s and reads the element, but a self call moves neither' % (ir.loc(f), pname(f, prs[0][0]), pname(f, prs[0][1])))
        moved = any(A[i] == add(P(i), {None: 1}) for i in range(len(A)) if i in dr)
        if cnt and moved:
            for i in cnt:
                if i in varies:
                    R.ok(); R.count('self calls that count down')
                else:
                    R.bad(key + ' does not count ' + pname(f, i), '%s: advances under a test of %s that the self call does not change' % (ir.loc(f), pname(f, i)))


def search_rule(R, f, o, ps, key):
    """binary search on (first, len): the left part is [first, m), the right one starts at m or m + 1 and reaches the old end, the probe is at m"""
    def ishalf(l, k):
        return any(isinstance(a, tuple) and a[0] == 'half' for a in l) and flat(l) == {('p', k)}
    F = [(g, [lin(a) for a in args]) for g, targs, args, obj in ps if not targs]
    n = len(f['params'])
    for k in range(n):
        for ga, A in F:
            if not ishalf(A[k], k):
                continue
            for gb, B in F:
                if together(ga, gb):
                    continue
                for i in range(n):
                    d = add(B[i], P(i), -1)
                    if i == k or A[i] != P(i) or not ishalf(d, k):
                        continue
                    if add(B[i], B[k]) != add(P(i), P(k)):
                        R.bad(key + ' right part', '%s: the right part of the search starts %s on and has %s elements: it does not end where the range ends' % (ir.loc(f), showl(d), showl(B[k])))
                    else:
                        R.ok(); R.count('right parts of binary searches')
                    gap = add(d, A[k], -1)
                    if set(gap) <= {None} and gap.get(None, 0) in (0, 1):
                        R.ok(); R.count('parts of binary searches that meet')
                    else:
                        R.bad(key + ' gap', '%s: the left part of the search has %s elements, the right part starts %s on' % (ir.loc(f), showl(A[k]), showl(d)))
                    want = add(P(i), A[k])
                    for t, p in literals(ga) + literals(gb):
                        for x in derefs(t):
                            l = lin(x)
                            if l.get(('p', i)) == 1 and flat(l) == {('p', i), ('p', k)}:
                                if l == want:
                                    R.ok(); R.count('probes of binary searches')
                                else:
                                    R.bad(key + ' probe', '%s: the search splits at %s but looks at the element at %s' % (ir.loc(f), showl(want), showl(l)))


def initial(R, U, fns, pivots, info, callers):
    """calls that start a range-splitting recursion: the pivot is half the range, and the range is not empty"""
    for f in fns:
        qs = set()
        for s in ir.sites(f):
            for d in s.cands:
                d = d if isinstance(d, dict) else U.byid.get(d)
                if d and d.get('q') in pivots and d.get('id') != f['id']:
                    qs.add(d['q'])
        qs -= {f['q']}
        if not qs:
            continue
        try:
            o = terms.Evaluator(U).function(f)
        except (terms.Give, terms.TooBig):
            continue
        for q in qs:
            h, (i, j, k) = pivots[q]
            for g, targs, args, obj in paths(o, h):
                A = [lin(a) for a in args]
                size = add(A[j], A[i], -1)
                if A[k] == half(size):
                    R.ok(); R.count('pivots of initial calls')
                elif any(isinstance(a, tuple) and a[0] not in ('p', 'half', 'm', 'f', 'call') for a in A[k]) or not flat(A[k]) <= flat(size):
                    R.undecided('initial pivot in %s' % ir.sig(f))
                else:
                    R.bad(ir.sig(f) + ' initial pivot', '%s: starts %s on [%s, %s) with pivot %s instead of half the size' % (ir.loc(f), q, showl(A[i]), showl(A[j]), showl(A[k])))
                # not empty
                ok = False
                for t, p in literals(g):
                    c = cmp_forms(t, p)
                    if c:
                        d = add(lin(c[1]), lin(c[2]), -1)
                        nd = add({}, d, -1)
                        if (d == size or nd == size) and c[0] in ('!=', '<', '>'):
                            ok = True
                        if set(add(d, size, -1)) <= {None} or set(add(nd, size, -1)) <= {None}:
                            ok = True
                    if t[0] == 'call' and t[1].endswith('empty'):
                        ok = True
                if ok:
                    R.ok(); R.count('initial calls guarded against the empty range')
                else:
                    unguarded(R, U, f, g, callers, 'initial calls', '%s on a range that may be empty' % q, frozenset())


def internal(f):
    return any(x == 'detail' or x.endswith('_detail') for x in f['q'].split('::')[:-1]) or f['q'].split('::')[-1].endswith(('_impl', '_ra', '_aux'))


def unguarded(R, U, f, g, callers, what, msg, seen):
    """some condition has to stand between the public entry and the call"""
    if any(params_of(t) or any(x == ('this',) for x in terms.subterms(t)) for t, p in literals(g)):
        R.ok(); R.count(what + ' under another condition')
        return
    if not internal(f):
        R.bad(ir.sig(f) + ' unguarded', '%s: calls %s: nothing on the way excludes the empty range' % (ir.loc(f), msg))
        return
    up = [c for c in callers[f['id']] if c['id'] != f['id'] and c['id'] not in seen]
    if not up or len(seen) > 4:
        R.count(what + ' in helpers nobody calls')
        return
    for c in {c['id']: c for c in up}.values():
        try:
            o = terms.Evaluator(U).function(c)
        except (terms.Give, terms.TooBig):
            R.undecided('%s in %s' % (what, ir.sig(c)))
            continue
        for g2, targs, args, obj in paths(o, f):
            unguarded(R, U, c, g2, callers, what, msg, seen | {f['id']})


def counts(R, U, fns, info, callers):
    """a recursion on a count that stops at 1 is not started with 0"""
    for fid, (h, o, ps) in info.items():
        ks = set()
        for g, targs, args, obj in ps:
            if targs:
                continue
            for k, a in enumerate(args):
                if lin(a) == half(P(k)):
                    st = [cmp_forms(t, p) for t, p in literals(g)]
                    st = [(c[0], add(lin(c[1]), lin(c[2]), -1)) for c in st if c]
                    if any(o_ == '!=' and d == {('p', k): 1, None: -1} for o_, d in st) and not any(set(d) - {None} == {('p', k)} and (o_, d.get(None, 0)) != ('!=', -1) for o_, d in st):
                        ks.add(k)
        if not ks:
            continue
        k = sorted(ks)[0]
        for f in {c['id']: c for c in callers[fid] if c['id'] not in info or info[c['id']][0]['q'] != h['q']}.values():
            try:
                o2 = terms.Evaluator(U).function(f)
            except (terms.Give, terms.TooBig):
                continue
            for g, targs, args, obj in paths(o2, h):
                a = lin(args[k])
                if set(a) <= {None} and a.get(None, 0) >= 1:
                    R.ok(); R.count('counts that start at a constant')
                elif a.get(None, 0) >= 1 and len(a) > 1:
                    R.count('counts of unknown start')
                else:
                    unguarded(R, U, f, g, callers, 'counts that may be 0', '%s, which never ends for a count of 0,' % h['q'], frozenset())


# ------------------------------------------------------------------ loops
MOD = ('++', '--', 'post++', 'post--')


def by_value(U, cands, i):
    """no candidate can change its i-th argument"""
    got = False
    for d in cands:
        d = U.byid.get(d) if not isinstance(d, dict) else d
        if not d or d.get('t') != 'fn':
            return False
        ps = d['params']
        if i >= len(ps):
            continue
        got = True
        ty = ps[i][3]
        if '&&' in ty or ('&' in ty and 'const' not in ty):
            return False
    return got


def modified(x, U=None):
    """ids of variables changed anywhere in x: id -> set of '+', '-', '='"""
    m = defaultdict(set)

    def base(e):
        while isinstance(e, list) and e and e[0] in ('icast', 'cast', 'paren'):
            e = e[3] if e[0] == 'icast' else e[4] if e[0] == 'cast' else e[1]
        return e

    def mark(e, how):
        e = base(e)
        if not isinstance(e, list) or not e:
            return
        if e[0] in ('parm', 'local'):
            m[e[1]].add(how)
        elif e[0] in ('member', 'dmember', 'umember', 'index'):
            mark(e[1], '=')
            if e[0] != 'index':
                m['.' + str(e[2])].add(how)
        elif e[0] == 'opcall' and e[1] in ('[]', '->', '*'):
            mark(e[3][0], '=')
        elif e[0] == 'un' and e[1] == '*':
            mark(e[2], 'deref')
        elif e[0] == 'call' and e[1] and e[1][0] in ('member', 'dmember', 'umember'):
            mark(e[1], '=')
        elif e[0] == 'var':
            m['v' + str(e[2])].add(how)
    for n in ir.walk(x):
        k = n[0]
        if k == 'bin' and n[1].endswith('=') and n[1] not in ('==', '!=', '<=', '>='):
            mark(n[2], {'+=': '+', '-=': '-'}.get(n[1], '='))
        elif k == 'un' and n[1] in MOD:
            mark(n[2], n[1][-1])
        elif k == 'opcall' and n[1] in ('++', '--'):
            mark(n[3][0], n[1][-1])
        elif k == 'opcall' and n[1].endswith('=') and n[1] not in ('==', '!=', '<=', '>='):
            mark(n[3][0], {'+=': '+', '-=': '-'}.get(n[1], '='))
        elif k in ('call', 'mcall', 'uctor', 'ctor') or (k == 'opcall' and n[1] in ('()', '<<', '>>', ',')):
            xs = {'call': lambda: n[2], 'mcall': lambda: n[3], 'opcall': lambda: n[3], 'uctor': lambda: n[3], 'ctor': lambda: n[4]}[k]()
            cs = None
            if k == 'call' and isinstance(n[1], list) and n[1] and U is not None:
                cs = [n[1][1]] if n[1][0] == 'func' else n[1][2] if n[1][0] == 'lookup' else None
            for i, a in enumerate(xs):
                b = base(a)
                if isinstance(b, list) and b and b[0] in ('parm', 'local'):
                    if cs and by_value(U, cs, i):
                        continue
                    m[b[1]].add('arg')
            if k in ('call', 'mcall'):
                c = n[1]
                if isinstance(c, list) and c and c[0] in ('member', 'dmember', 'umember'):
                    mark(c[1], 'call')
                    if base(c[1]) and base(c[1])[0] in ('parm', 'local'):
                        m[base(c[1])[1]].add('call')
        elif k == 'decl':
            for d in n[1]:
                pass
    return m


def vars_in(x):
    return {n[1] for n in ir.walk(x) if n[0] in ('parm', 'local')}


def leaves(x):
    return any(n[0] in ('ret', 'break', 'throw', 'goto') for n in ir.walk(x))


def loops(R, U, fns):
    for f in fns:
        key0 = ir.sig(f)
        pidx = {p[1]: i for i, p in enumerate(f['params'])}
        lone = {f['params'][i][1]: f['params'][i][0] for i in lone_iterators(f)}
        k = 0
        for n in ir.nodes(f):
            if not n or n[0] not in ('for', 'while', 'do'):
                continue
            k += 1
            R.count('loops')
            key = '%s loop %d' % (key0, k)
            if n[0] == 'for':
                init, cond, inc, body = n[1], n[2], n[3], n[4]
            elif n[0] == 'while':
                init, cond, inc, body = None, n[1], None, n[2]
            else:
                init, cond, inc, body = None, n[2], None, n[1]
            whole = [x for x in (cond, inc, body) if x]
            out = leaves(body)
            if not cond:
                if out:
                    R.ok()
                else:
                    R.bad(key + ' endless', '%s: a loop without a condition that nothing leaves' % ir.loc(f))
                continue
            m = defaultdict(set)
            for x in whole:
                for a, b in modified(['block', [x]] if not isinstance(x[0], str) else x, U).items():
                    m[a] |= b
            vs = vars_in(cond)
            other = any(c[0] in ('call', 'mcall', 'opcall', 'member', 'dmember', 'umember', 'var', 'this') for c in ir.walk(cond) if not (c[0] == 'opcall' and c[1] in ('==', '!=', '<', '>', '<=', '>=', '&&', '||', '!')))
            strong = {v for v in vs if m.get(v, set()) - {'deref'}}
            if strong:
                R.ok(); R.count('loops whose condition changes')
            elif out or other:
                R.ok(); R.count('loops left from within or ended by a call')
            else:
                R.bad(key + ' progress', '%s: no variable of the loop condition changes in the loop' % ir.loc(f))
            direction(R, f, cond, m, key, pidx)
            for c in conj(cond):
                if c[0] == 'bin':
                    o, xs = c[1], c[2:4]
                elif c[0] == 'opcall' and len(c[3]) == 2:
                    o, xs = c[1], c[3]
                else:
                    continue
                if o != '!=' or not all(x[0] in ('parm', 'local') for x in xs) or any(m.get(x[1], set()) - {'deref'} for x in xs):
                    continue
                if any(y[0] in ('un', 'opcall') and y[1] == '*' and (y[2] if y[0] == 'un' else y[3][0])[:2] == x[:2] and (y[0] == 'un' or len(y[3]) == 1) for x in xs for y in ir.walk(['block', [body] + ([inc] if inc else [])])):
                    R.bad(key + ' stuck ' + xs[0][2], '%s: the loop tests %s != %s and reads the element on each step but moves neither' % (ir.loc(f), xs[0][2], xs[1][2]))
            # iterators written or read on each step
            wr = set()
            for x in ir.walk(['block', [body] + ([inc] if inc else []) + [cond]]):
                e = None
                if x[0] == 'un' and x[1] == '*':
                    e = x[2]
                elif x[0] == 'opcall' and x[1] == '*' and len(x[3]) == 1:
                    e = x[3][0]
                if e is not None:
                    while isinstance(e, list) and e and e[0] == 'icast':
                        e = e[3]
                    if e[0] == 'parm':
                        wr.add(e[1])
            adv = [v for v in m if v in pidx and m[v] & {'+', '-'}]
            for v in wr & set(lone):
                if m.get(v, set()) - {'deref'}:
                    R.ok(); R.count('sequences walked in step (loops)')
                elif adv and not out:
                    R.bad(key + ' in step ' + lone[v], '%s: *%s is used on each step of the loop but %s never moves' % (ir.loc(f), lone[v], lone[v]))


def conj(c):
    todo = [c]
    while todo:
        c = todo.pop()
        while isinstance(c, list) and c and c[0] == 'icast':
            c = c[3]
        if c[0] == 'bin' and c[1] == '&&':
            todo += [c[2], c[3]]
        elif c[0] == 'opcall' and c[1] == '&&':
            todo += c[3]
        else:
            yield c


def direction(R, f, cond, m, key, pidx):
    """first != last between two parameters: the first goes up or the second down"""
    todo = [cond]
    while todo:
        c = todo.pop()
        while isinstance(c, list) and c and c[0] == 'icast':
            c = c[3]
        if c[0] == 'bin' and c[1] == '&&':
            todo += [c[2], c[3]]; continue
        if c[0] == 'bin':
            o, a, b = c[1], c[2], c[3]
        elif c[0] == 'opcall' and len(c[3]) == 2:
            o, (a, b) = c[1], c[3]
        else:
            continue
        if o not in ('!=', '<', '>', '<=', '>='):
            continue

        def base(e):
            while isinstance(e, list) and e and e[0] == 'icast':
                e = e[3]
            return e
        a, b = base(a), base(b)
        if o in ('>', '>='):
            a, b, o = b, a, '<'
        ida = a[1] if a[0] in ('parm', 'local') else None
        idb = b[1] if b[0] in ('parm', 'local') else None
        if o == '!=':
            if a[0] == 'int' or (b[0] in ('parm', 'local') and role(b[2]) == 'lower'):
                a, b, ida, idb = b, a, idb, ida
            if b[0] == 'int':
                # a count going down to a constant (unless the function walks it both ways)
                if ida is None or {'+', '-'} <= modified(f['body'], None).get(ida, set()):
                    continue
                ida, idb = None, ida
            elif a[0] in ('parm', 'local') and b[0] in ('parm', 'local') and role(a[2]) and role(b[2]):
                if role(a[2]) == role(b[2]):
                    continue
                if role(a[2]) == 'upper':
                    ida, idb = idb, ida
            elif a[0] == 'parm' and b[0] == 'parm' and ida in pidx and idb in pidx and f['params'][pidx[ida]][3] == f['params'][pidx[idb]][3]:
                if pidx[ida] > pidx[idb]:
                    ida, idb = idb, ida
            else:
                continue
        up = m.get(ida, set()) if ida is not None else set()
        dn = m.get(idb, set()) if idb is not None else set()
        okd = '+' in up or '-' in dn
        wrong = ('-' in up and '+' not in up) or ('+' in dn and '-' not in dn)
        if (up | dn) - {'+', '-', 'deref'}:
            continue
        if okd:
            R.ok(); R.count('loops stepping towards the bound')
        elif wrong:
            R.bad(key + ' direction', '%s: the loop goes on until its bounds meet but moves them apart' % ir.loc(f))


def run(R, tier):
    R.rule('recursion: some parameter that decides whether to go on changes in every self call, and a constant step moves towards the bound')
    R.rule('recursion that splits: the two parts of a range meet at one point and reach both ends, each pivot is half of its part; counts add up and the second part starts where the first ends; halving stops where it no longer shrinks')
    R.rule('loop: the condition changes or the loop is left from within, bounds approach each other')
    R.rule('sequences walked in step are advanced together')
    us = tu.header_units(('portable17', 'portable11', 'gcc17', 'pointer17', 'pointer11'))
    done = set()
    for name, U in us.items():
        fns = [f for f in U.fns if 'body' in f and not f.get('inst')]
        new = {f['id'] for f in fns if (f['file'], f['line'], f['q']) not in done}
        done |= {(f['file'], f['line'], f['q']) for f in fns}
        pivots, info, callers = recursion(R, U, fns, new)
        R.count('recursions that split a range at a pivot', len([q for q in pivots if pivots[q][0]['id'] in new]))
        initial(R, U, [f for f in fns if f['id'] in new], pivots, info, callers)
        counts(R, U, fns, {k: v for k, v in info.items() if k in new}, callers)
        loops(R, U, [f for f in fns if f['id'] in new])
        R.count('functions analysed', len(new))
    R.floor('recursive functions', 280)
    R.floor('loops', 160)
    R.floor('range splits', 28)


if __name__ == '__main__':
    sys.exit(main('C26', run))
