"""C36: searching and counting algorithms give the result their names say on every range."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import tu, words
from ir import loc
from terms import Give
from check import main

CLASSES = [(1, 0), (1, 1), (2, 0), (2, 1), (2, 2)]
# name -> (what it gives, whether the elements looked for are those the predicate holds for)
SPEC = {'all_of': ('none', False), 'all_of_equal': ('none', False), 'any_of': ('some', True), 'any_of_equal': ('some', True),
        'none_of': ('none', True), 'none_of_equal': ('none', True), 'one_of': ('one', True), 'one_of_equal': ('one', True),
        'find': ('first', True), 'find_if': ('first', True), 'find_if_not': ('first', False),
        'count': ('count', True), 'count_if': ('count', True)}
# binary searches: value looked for in a range of smaller, equivalent and greater elements
ORDERED = {'lower_bound': 'at', 'upper_bound': 'after', 'equal_range': 'both', 'binary_search': 'has', 'partition_point': 'edge'}
A, L, S, M = words.ALL, words.LESS, words.SAME, words.MORE


def segs(*ks):
    """every division into an empty part, one element or many for each label"""
    out = [()]
    for k in ks: out = [o + g for o in out for g in ((), ((1, k),), ((2, k),))]
    return out


def ordered(spec):
    """(ranges, what is expected of each)"""
    if spec == 'edge': return wanted(spec, segs(A, 0))
    if spec == 'parts':
        r = [(g, True) for g in segs(A, 0)]
        return r + [(g + ((1, 0),) + h + ((1, 1),) + t, False) for g in segs(A) for h in segs(0) for t in [()] + [(c,) for c in CLASSES]]
    return wanted(spec, segs(L, S, M))


def wanted(spec, gs):
    if spec == 'edge': return [(g, ('p', sum(x[1] == A for x in g))) for g in gs]
    r = []
    for g in gs:
        a = sum(x[1] == L for x in g); b = a + sum(x[1] == S for x in g)
        r.append((g, {'at': ('p', a), 'after': ('p', b), 'both': ('pair', ('p', a), ('p', b)), 'has': b > a}[spec]))
    return r


PARTS = {A: 'matching', 0: 'not matching', 1: 'matching', 2: 'matching', L: 'smaller', S: 'equivalent', M: 'greater'}


def say(g):
    if not g: return 'the empty range'
    if len(g) == 1 and g[0] in CLS: return CLS[g[0]]
    return 'a range of ' + ', '.join('%s %s' % ('one' if n == 1 else 'many', PARTS[k]) for n, k in g)


WORD = {'none': 'whether none matches', 'some': 'whether some element matches', 'one': 'whether exactly one matches', 'first': 'the first match', 'count': 'the number of matches'}
CLS = {(1, 0): 'one element that does not match', (1, 1): 'one matching element', (2, 0): 'elements none of which matches', (2, 1): 'several elements, one of which matches', (2, 2): 'several matching elements'}


def verdict(spec, g, order, idx, v, W):
    """g: the refined gaps of the whole range; v over their indexes; True / False / None"""
    s = words.St(tuple(range(len(g) + 1)), g)
    k = sum(x[1] for x in g)
    if spec in ('none', 'some', 'one'):
        if isinstance(v, tuple) and v[0] == 'i': v = v[1] != 0
        if not isinstance(v, bool): return None, v
        return v == {'none': k == 0, 'some': k > 0, 'one': k == 1}[spec], v
    if spec == 'first':
        if not (isinstance(v, tuple) and v[0] == 'p'): return None, v
        i = v[1]
        before = sum(x[1] for x in g[:i])
        if i == len(g): return before == 0, 'the end'
        x = g[i]
        if before: return False, 'a later one'
        if x[0] == 1: return x[1] == 1, 'an element that does not match'
        if x[1] == 0: return False, 'an element that does not match'
        return None, v
    if spec == 'count':
        if not (isinstance(v, tuple) and v[0] == 'form'): return None, v
        d = words.form(v[1], list(v[2]) + [(('C', 0), 1), (('C', len(g)), -1)])
        n = W.flat(d, s)
        if n is None: return None, v
        return n == 0, 'the number and %d' % n if n else v
    return None, v


def check(R, tier):
    R.rule('Every function that all_of, any_of, none_of, one_of (and their _equal forms), find, find_if, find_if_not, count and count_if call is interpreted over abstract ranges (gaps of one or many elements of which none, one or more match; '
           'reading and halving split gaps in every possible way); the results are the least fixpoint over all abstract calls. Both the versions for random access and for input iterators must give, for the empty range and every class of range, '
           'the quantifier, the first match (or the end), or the number of matches.')
    R.assume += ['The predicate and == of the elements give the same answer each time.', 'Termination and coverage of the ranges are C26.']
    for un, U in tu.header_units(('portable17', 'portable11')).items():
        seq = un == 'portable17'
        by = {}
        for f in U.fns:
            if 'body' in f and not f.get('inst') and f['file'].startswith('sprout/algorithm/') and f['kind'] == 'fn': by.setdefault(f['q'], []).append(f)
        for name, (spec, hit) in SPEC.items() if seq else ():
            pub = [f for f in by.get('sprout::' + name, []) if len(f['params']) == 3]
            if len(pub) != 1: R.undecided('sprout::%s: %d overloads' % (name, len(pub))); continue
            f = pub[0]
            for tag in ('random_access_iterator_tag', 'input_iterator_tag'):
                R.count('versions')
                one(R, U, f, name, spec, hit, tag)
        for name, spec in list(ORDERED.items()) + [('is_partitioned', 'parts')]:
            for f in by.get('sprout::' + name, []):
                for tag in ('random_access_iterator_tag', 'input_iterator_tag') if spec == 'parts' else ('',):
                    R.count('versions')
                    search(R, U, f, name, spec, tag, un)
    R.floor('versions', 22)
    R.floor('abstract calls', 300)


GIVES = (Give, TypeError, KeyError, IndexError, AttributeError, RecursionError)


def decide(R, key, what, f, make, argv, ranges, judge):
    """ranges: (gaps, anything); judge(gaps, anything, result) -> (verdict, what it is)"""
    bad = None
    W = make(False)
    try:
        bad = run(W, f, argv, ranges(False), judge)
    except GIVES as x:
        # not decided for every range: a range of a few elements may show that it is wrong
        V = make(True)
        n = 0
        for r in ranges(True):
            try: bad = bad or run(V, f, argv, [r], judge)
            except words.Past as y: bad = '%s in %s' % (y, say(r[0]))
            except GIVES: n += 1
            V.todo, V.queued = [], set()
            if bad or n > 3: break
        R.count('abstract calls', len(V.res))
        if not bad: R.undecided('%s: %s' % (what, x))
        else: R.bad(key, '%s: %s: %s' % (loc(f), what, bad))
        return
    R.count('abstract calls', len(W.res))
    R.count('functions', len(W.fns))
    if bad: R.bad(key, '%s: %s: %s' % (loc(f), what, bad))
    else: R.ok(); R.sample('%s over %d abstract calls of %s' % (what, len(W.res), ', '.join(sorted(W.fns))))


def run(W, f, argv, ranges, judge):
    bad = None
    for g, want in ranges:
        k, rs = W.solve(f, (('p', 0), ('p', len(g))) + tuple(argv), g, tuple(range(1, len(g))) if len(g) > 1 else ())
        if not rs: bad = bad or 'no result for %s' % say(g); continue
        for g2, idx, v in sorted(rs, key=repr):
            ok, got = judge(W, g2, idx, v, want)
            if ok is None: raise Give('result %r' % (v,))
            if not ok: bad = bad or 'for %s the result is %s' % (say(g), got)
    return bad


def one(R, U, f, name, spec, hit, tag):
    def make(exact):
        W = words.Words(U, hit, 'rel' if spec == 'count' else 'abs', exact=exact)
        W.tag = tag
        return W

    def judge(W, g, idx, v, want):
        ok, got = verdict(spec, g, None, idx, v, W)
        return ok, '%s, not %s' % ({True: 'true', False: 'false'}[got] if isinstance(got, bool) else got, WORD[spec])
    third = ('val',) if name in ('find', 'count') or name.endswith('_equal') else ('pred',)
    rs = lambda exact: [(g, None) for g in ([()] + [(c,) for c in CLASSES] if not exact else few((0, 1), 5))]
    decide(R, '%s %s' % (name, tag), 'sprout::%s (%s)' % (name, tag.replace('_tag', '')), f, make, (third,), rs, judge)


def few(ks, n):
    """every range of at most n elements"""
    out = [()]
    for g in out:
        if len(g) < n: out += [g + ((1, k),) for k in ks]
    return out


def search(R, U, f, name, spec, tag, un):
    def make(exact):
        W = words.Words(U, True, 'abs', exact=exact)
        W.tag = tag or '?'
        return W

    def judge(W, g, idx, v, want):
        w = words.mapv(want, lambda p: idx[p]) if isinstance(want, tuple) else want
        if isinstance(want, bool) and not isinstance(v, bool) or isinstance(want, tuple) and (not isinstance(v, tuple) or v[0] != want[0]): return None, v
        return v == w, place(v, g, w)

    def ranges(exact):
        if not exact: return ordered(spec)
        if spec == 'parts': return [(g, not any(k == 0 and 1 in [x[1] for x in g[i:]] for i, (_, k) in enumerate(g))) for g in few((1, 0), 4)]
        return [(g, w) for g, w in wanted(spec, [g for g in few((A, 0) if spec == 'edge' else (L, S, M), 4) if list(g) == sorted(g, key=lambda x: -x[1] if spec == 'edge' else x[1])])]
    n = len(f['params'])
    argv = [('pred',)] if spec in ('edge', 'parts') else [('val',)] if n == 3 else [('val',), ('comp',)]
    what = 'sprout::%s (%s, %s)' % (name, tag.replace('_tag', '') or '%d parameters' % n, un)
    decide(R, '%s %s %d %s' % (name, tag, n, un), what, f, make, argv, ranges, judge)


def place(v, g, w):
    if isinstance(v, bool): return 'true' if v else 'false'
    if v[0] == 'pair': return 'another pair of places'
    return 'too late' if v[1] > w[1] else 'too early'


if __name__ == '__main__':
    sys.exit(main('C36', check))
