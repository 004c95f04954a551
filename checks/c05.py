"""C05: the range, range-fixed and range-fit version of an algorithm is the iterator version on begin/end of its ranges."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import tu
from ir import loc, sig
from terms import Evaluator, Give, TooBig, pure, show, subterms
from check import main

BEG = {'sprout::begin', 'sprout::cbegin', 'sprout::range_adl::range_begin', 'std::begin', 'begin', 'cbegin', 'sprout::const_begin'}
END = {'sprout::end', 'sprout::cend', 'std::end', 'end', 'cend', 'sprout::const_end'}
# algorithms whose iterator version takes the extra iterator between begin and end
MIDDLE = {'rotate', 'rotate_copy', 'partial_sort', 'nth_element', 'inplace_merge', 'cyclic_perm', 'shift'}
ITER = {'sprout::next', 'sprout::prev', 'std::next', 'std::prev', 'sprout::advance', 'sprout::distance', 'sprout::size'}
PACK = {'pack', 'pack_pair'}
PAIR = {'sprout::pair_to_range', 'sprout::range::pair_to_range'}
TRANSPARENT = {'sprout::ref', 'sprout::cref', 'sprout::identity', 'sprout::forward', 'sprout::move'}


def atom(t):
    """('b',i) begin of param i; ('e',i) end; ('v',i) the parameter; ('bad',why); None unknown"""
    while t[0] == 'call' and t[1] in TRANSPARENT and len(t[3]) == 1:
        t = t[3][0]
    if t[0] == 'pack':
        return atom(t[1])
    if t[0] == 'p':
        return ('v', t[1])
    if t[0] in ('call', 'm'):
        if t[0] == 'm':
            q, xs = t[1], (t[2],) + t[3]
        else:
            q, xs = t[1], t[3]
        if len(xs) == 1 and xs[0][0] == 'p':
            if q in BEG: return ('b', xs[0][1])
            if q in END: return ('e', xs[0][1])
    ps = [x for x in subterms(t) if x[0] == 'p']
    if t[0] == 'lit':
        return ('bad', 'the constant %s' % show(t))
    if t[0] in ('call', 'op', 'm') and any(x[0] in ('call', 'm') and x[1] in BEG | END or x[0] == 'call' and x[1] in ITER for x in subterms(t)):
        return ('bad', '%s' % show(t))
    if t[0] == 'op' and ps:
        return ('bad', '%s' % show(t))
    return None


def check(R, tier):
    R.rule('For every function of the range namespaces (sprout::range::X, range::fixed::X, range::fit::X under range/algorithm and range/numeric) the value of the body is computed '
           'by Herbrand value numbering of its AST (locals, forwarding and helpers substituted). It must be a call of the iterator algorithm of the same name with the ranges '
           'replaced by begin/end in order (begin alone only where no iterator overload takes the end), every other argument passed through unchanged and in order, and a returned '
           'iterator packed with the range it points into.')
    R.assume += ['A term the rules do not recognise (an algorithm written out by hand, an unknown wrapper) is counted undecided, not reported.']
    U = tu.header_units(('portable17',))['portable17']
    core = {}
    for f in U.fns:
        if f['kind'] == 'fn' and f['q'].startswith('sprout::') and '::range::' not in f['q']:
            core.setdefault(f['q'], []).append(f)
    alg = {q for q, fs in core.items() if any('/algorithm/' in f['file'] or '/numeric/' in f['file'] for f in fs)}
    for f in U.fns:
        if f['kind'] != 'fn' or 'body' not in f or not re.match(r'sprout::range::(\w+::)?\w+$', f['q']):
            continue
        if not re.search(r'range/(algorithm|numeric)/', f['file']) or 'detail' in f['q']:
            continue
        want = f['q'].replace('sprout::range::', 'sprout::')
        if want not in core:
            R.count('range functions without iterator counterpart'); continue
        R.count('range functions')
        one(R, U, f, want, core, alg)
    R.floor('range functions', 250)


def one(R, U, f, want, core, alg):
    key = f['q'] + '(' + ','.join(p[0] for p in f['params']) + ')'

    def inl(d, depth):
        return d['q'] not in alg and d['q'].startswith('sprout::') and (d['file'] == f['file'] or 'detail' in d['q']) and d['q'] not in BEG | END

    E = Evaluator(U, inl)
    try:
        o = E.function(f)
    except (Give, TooBig) as x:
        R.undecided('%s: %s' % (loc(f), x)); return
    t = None
    if o[0] == 'fall' and not o[1][0] and len(o[1][1]) == 1:
        t = o[1][1][0]
    else:
        t = pure(o)
    if t is None:
        R.undecided('%s: %s has branches or effects' % (loc(f), f['q'])); return
    where = '%s: %s' % (loc(f), sig(f))
    packed = None
    orig = t
    while True:
        if t[0] == 'ds' and t[2] in PACK and t[4] and len(t[4]) == 2:
            packed = (t[2], t[4][1]); t = t[4][0]; continue
        if t[0] == 'call' and t[1] in PAIR and len(t[3]) == 1:
            t = t[3][0]; continue
        if t[0] == 'call' and t[1].split('::')[-1] in PACK and len(t[3]) == 2:
            packed = (t[1].split('::')[-1], t[3][1]); t = t[3][0]; continue
        break
    if t[0] in ('il', 'new') and len(t[-1]) == 2 and all(x[0] == 'f' for x in t[-1]) and t[-1][0][2] == t[-1][1][2]:
        if (t[-1][0][1], t[-1][1][1]) != ('first', 'second'):
            R.bad(key + ' pair', '%s swaps the two ends of the resulting range' % where); return
        t = t[-1][0][2]
    if t[0] != 'call':
        R.undecided('%s: value is %s' % (where, show(orig, 120))); return
    q, xs = t[1], t[3]
    q0 = q if '::' in q else 'sprout::' + q
    if q0 != want:
        # another algorithm of the library?
        if q0 in alg and q0.startswith('sprout::') and '::range::' not in q0 and not q0.split('::')[-1].startswith('make'):
            # a sibling that is defined as this one (e.g. iterator version without its own range form)
            R.bad(key + ' callee', '%s calls %s instead of %s' % (where, q0, want)); return
        m = re.match(r'sprout::range::', q0)
        if m and q0 == f['q']:
            R.undecided('%s: calls another overload of itself' % where); return
        R.undecided('%s: value is a call of %s' % (where, q)); return
    ats = [atom(x) for x in xs]
    bad = [a for a in ats if a and a[0] == 'bad']
    if bad:
        R.bad(key + ' argument', '%s passes %s to %s, not the parameter or the begin/end of the range' % (where, bad[0][1], want)); return
    if None in ats:
        R.undecided('%s: argument %s' % (where, show(xs[ats.index(None)], 120))); return
    ovs = [c for c in core[want] if len(c['params']) == len(ats) or any(p[5] for p in c['params'])]
    name = f['name']
    ranges = {i for k, i in ats if k in 'be'}
    # expected sequence
    exp = []
    mid = None
    for i, p in enumerate(f['params']):
        if i in ranges:
            exp.append(('b', i)); exp.append(('e', i))
        else:
            exp.append(('v', i))
    used = {i for _, i in ats}
    missing = [p[0] for i, p in enumerate(f['params']) if i not in used and p[0]]
    if missing:
        R.bad(key + ' dropped', '%s does not pass its parameter "%s" on to %s' % (where, missing[0], want)); return
    got = list(ats)
    cand = [exp]
    if name in MIDDLE:
        c2 = list(exp)
        for j in range(len(c2) - 2):
            if c2[j][0] == 'b' and c2[j + 1][0] == 'e' and c2[j + 2][0] == 'v':
                c2[j + 1], c2[j + 2] = c2[j + 2], c2[j + 1]
                cand = [c2]
                break
    # begin-only ranges: allowed where no overload of the iterator version takes the end as well
    ok = False
    why = None
    for c in cand:
        if got == c:
            ok = True; break
        miss = [x for x in c if x not in got]
        if all(x[0] == 'e' for x in miss) and got == [x for x in c if x not in miss]:
            # could the full sequence have been passed?
            full = [d for d in core[want] if fits(d, c, f)]
            if not full:
                ok = True; break
            why = 'passes only the beginning of "%s" although %s takes its end too' % (f['params'][miss[0][1]][0], sig(full[0]))
    if not ok:
        R.bad(key + ' order', '%s calls %s(%s), expected (%s)%s' % (where, want, fmt(f, got), fmt(f, cand[0]), '; ' + why if why else '')); return
    if packed is not None and packed[1][0] == 'p' and ovs:
        r = packed[1][1]
        # position of the first iterator of the packed range in the call
        pos = next((j for j, a in enumerate(got) if a == ('b', r)), None)
        ovs1 = [c for c in ovs if len(c['params']) == len(got) and c.get('cret') or c.get('ret')]
        if pos is None:
            R.bad(key + ' pack', '%s packs the result with "%s", which is not a range' % (where, f['params'][r][0])); return
        v = set()
        for c in ovs1:
            if len(c['params']) != len(got): continue
            ret = tnorm(c.get('cret') or c.get('ret'))
            ptypes = [tnorm(p[3]) for p in c['params']]
            if ret == ptypes[pos]: v.add(True)
            elif ret in ptypes: v.add(False)
            elif 'pair' in ret and ptypes[pos] in ret: v.add(True)
        if v == {False}:
            R.bad(key + ' pack', '%s packs the iterator %s returns with "%s", but it points into another range' % (where, want, f['params'][r][0])); return
    R.ok()
    R.count('forwarding calls decided')
    R.sample('%s = %s(%s)' % (f['q'], want, fmt(f, got)))


def tnorm(s):
    return re.sub(r'\b(const|typename)\b|&|\s', '', s or '')


def fits(d, seq, f):
    """overload d of the iterator version has the shape of seq: same arity, and begin/end positions share their type"""
    ps = d['params']
    if len(ps) != len(seq) or any(p[5] for p in ps):
        return False
    ts = [tnorm(p[3]) for p in ps]
    for j in range(len(seq) - 1):
        if seq[j][0] == 'b' and seq[j + 1][0] == 'e' and ts[j] != ts[j + 1]:
            return False
    # parameters that are not iterators must not sit where an iterator of the full form would
    for j, (k, i) in enumerate(seq):
        if k == 'v':
            n = f['params'][i][0]
            if ps[j][0] != n and not same_kind(ps[j][0], n):
                return False
    return True


def same_kind(a, b):
    g = [{'pred', 'comp', 'op', 'func', 'f', 'proj', 'binary_op', 'unary_op', 'gen', 'binary_op1', 'binary_op2', 'cond'}, {'result', 'd_first', 'first'}, {'value', 'val', 'init', 'x', 'n'}]
    return any(a in s and b in s for s in g)


def fmt(f, ats):
    return ', '.join({'b': 'begin(%s)', 'e': 'end(%s)', 'v': '%s'}[k] % f['params'][i][0] for k, i in ats)


if __name__ == '__main__':
    sys.exit(main('C05', check))
