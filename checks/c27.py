"""C27: convenience overloads, dispatch layers and defaults are the full version with the arguments handed on unchanged."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import tu
from ir import loc, sig, nodes, arity_ok, sites
from terms import Evaluator, Give, TooBig, pure, show, subterms
from check import main

# default function objects: algorithm -> role of the omitted parameter -> functor
PLUS = {'accumulate', 'partial_sum', 'inclusive_scan', 'exclusive_scan', 'reduce'}
EQ = {'mismatch', 'find_end', 'find_first_of', 'equal', 'is_permutation', 'search', 'search_n', 'adjacent_find', 'unique', 'unique_copy'}
LESS = {'min_element', 'max_element', 'minmax_element', 'is_sorted', 'is_sorted_until', 'is_heap', 'is_heap_until', 'lower_bound', 'upper_bound', 'equal_range', 'binary_search', 'includes',
        'lexicographical_compare', 'tristate_lexicographical_compare', 'lexicographical_compare_3way', 'find_intersection', 'find_difference', 'find_symmetric_difference', 'next_union',
        'next_intersection', 'next_difference', 'next_symmetric_difference', 'merge', 'set_union', 'set_intersection', 'set_difference', 'set_symmetric_difference', 'inplace_merge',
        'sort', 'stable_sort', 'partial_sort', 'partial_sort_copy', 'nth_element', 'make_heap', 'push_heap', 'pop_heap', 'sort_heap', 'make_partial_heap', 'next_permutation', 'prev_permutation',
        'clamp_range', 'clamp_range_copy', 'bogo_sort', 'bozo_sort', 'bogo_sort_result', 'bozo_sort_result', 'is_heap_until', 'unmake_heap'}
DIRECT = {'sprout::is_increasing': 'less', 'sprout::is_decreasing': 'greater', 'sprout::is_strictly_increasing': 'less_equal', 'sprout::is_strictly_decreasing': 'greater_equal'}
OPS = {'+': 'plus', '-': 'minus', '*': 'multiplies', '/': 'divides', '%': 'modulus', '==': 'equal_to', '!=': 'not_equal_to', '<': 'less', '>': 'greater', '<=': 'less_equal', '>=': 'greater_equal',
       '&&': 'logical_and', '||': 'logical_or', '&': 'bit_and', '|': 'bit_or', '^': 'bit_xor', '<<': 'shift_left', '>>': 'shift_right', '!': 'logical_not', '~': 'bit_not'}
STD = {'less', 'greater', 'less_equal', 'greater_equal', 'equal_to', 'not_equal_to', 'plus', 'minus', 'multiplies', 'divides', 'modulus', 'negate', 'logical_and', 'logical_or', 'logical_not',
       'bit_and', 'bit_or', 'bit_xor', 'bit_not', 'shift_left', 'shift_right'}
FUNCTOR = re.compile(r'^(?:::)?(?:sprout|std|sscrisk::cel)::(\w+)(<.*>)?$')
ACCESS = {'sprout::begin', 'sprout::end', 'sprout::size', 'sprout::cbegin', 'sprout::cend'}
MEMACC = {'begin', 'end', 'size', 'data', 'get', 'c_str'}


def expected(f):
    n = f['name']
    if f['q'] in DIRECT: return [DIRECT[f['q']]]
    if n in PLUS: return ['plus']
    if n == 'adjacent_difference': return ['minus']
    if n in ('inner_product', 'transform_reduce'): return ['plus', 'multiplies']
    if n in EQ: return ['equal_to']
    if n.startswith('operator'):
        op = n[8:].strip()
        if op == '-' and len(f['params']) + (1 if f.get('cls') or f.get('clsq') else 0) == 1: return ['negate']
        return [OPS[op]] if op in OPS else None
    if n in LESS: return ['less']
    if n in ('max', 'min', 'minmax', 'clamp') and not f.get('clsq'): return ['less']
    return None


def built(f):
    """standard function objects the body constructs"""
    for n in nodes(f):
        if n[0] in ('uctor', 'ctor', 'valinit', 'ilist'):
            m = FUNCTOR.match(n[1] if n[0] in ('valinit', 'ilist') else n[2])
            if m and m.group(1) in STD:
                yield m.group(1)


def value(o):
    if o[0] == 'fall' and not o[1][0] and len(o[1][1]) == 1:
        return o[1][1][0]
    return pure(o)


def plain(t):
    """(param index, how) when t hands one parameter on (possibly converted, or one end / the size of it)"""
    if t[0] == 'pack': return plain(t[1])
    if t[0] == 'p': return (t[1], '')
    if t[0] == 'cast':
        r = plain(t[2])
        return r and (r[0], 'cast ' + t[1])
    if t[0] == 'call' and t[1] in ACCESS and len(t[3]) == 1:
        r = plain(t[3][0])
        return r and (r[0], t[1].split('::')[-1])
    if t[0] == 'm' and t[1] in MEMACC and not t[3]:
        r = plain(t[2])
        return r and (r[0], t[1])
    if t[0] in ('call', 'new') and len(t[-1]) == 1:
        r = plain(t[-1][0])
        return r and (r[0], 'fn')
    return None


def check(R, tier):
    R.rule('The body of every function is turned into a term over its parameters (Herbrand value numbering of the AST). Where the value is a call of another overload of the same name, of the '
           'dispatch target of the same name (detail::name, name_impl...), every named parameter must be handed on exactly once, in order and unchanged (conversions only to double or the '
           'promoted type); an omitted comparator, predicate or operation must be the standard default of that algorithm; element-wise operators must use the function object of that operator.')
    R.assume += ['Bodies with loops or conditions are outside this rule and counted as not applicable.', 'Default functors are the ones ISO C++ prescribes for the algorithm.']
    for un in ('portable17', 'pointer17') if tier == 'quick' else ('portable17', 'pointer17', 'gcc17', 'portable11', 'portable14'):
        U = tu.header_units((un,))[un]
        for f in U.fns:
            if 'body' in f and f['q'].startswith('sprout') and '/darkroom/' not in f['file'] and not f.get('inst'):
                one(R, U, f)
                roles(R, U, f)
    R.floor('calls with named roles', 1300)
    R.floor('forwarding overloads', 1000)
    R.floor('default function objects', 90)


def bareparm(e):
    """id of the parameter an argument is, through casts, forward and move"""
    while isinstance(e, list) and e:
        if e[0] == 'icast': e = e[3]
        elif e[0] == 'cast': e = e[4]
        elif e[0] == 'pack': e = e[1]
        elif e[0] == 'call' and len(e[2]) == 1 and (e[1][0] == 'func' and e[1][2].split('::')[-1] in ('forward', 'move') or e[1][0] == 'lookup' and e[1][1].split('::')[-1] in ('forward', 'move')): e = e[2][0]
        else: break
    return e[1] if isinstance(e, list) and e and e[0] == 'parm' else None


def roles(R, U, f):
    """a parameter handed to a helper or overload must not land in the place of another parameter of the caller, by the names both declare"""
    pn = {p[1]: p[0] for p in f['params'] if p[0]}
    if len(pn) < 2: return
    names = set(pn.values())
    for s in sites(f):
        if s.kind not in ('call', 'mcall') or not s.cands: continue
        cs = [U.byid.get(i) for i in s.cands]
        cs = [d for d in cs if d and d.get('params') and arity_ok(d, len(s.args))]
        if not cs or any(d['q'] == f['q'] and len(d['params']) == len(f['params']) for d in cs): continue
        an = [pn.get(bareparm(a)) for a in s.args]
        if not any(an): continue
        if not all(d['name'] == f['name'] or d['name'].startswith(f['name'] + '_') or {'detail', 'impl'} & set(d['q'].split('::')) for d in cs): continue
        bad = []
        for d in cs:
            dn = [p[0] for p in d['params']]
            bad.append(next(((x, dn[j]) for j, x in enumerate(an) if x and j < len(dn) and dn[j] != x and x in dn and dn[j] in names), None))
        if all(bad):
            R.bad('%s(%s) roles %s' % (f['q'], ','.join(p[0] for p in f['params']), bad[0][0]), '%s: %s hands its parameter "%s" to %s as "%s"' % (loc(f, s.line), sig(f), bad[0][0], cs[0]['q'], bad[0][1]))
        else:
            R.ok(); R.count('calls with named roles')


def one(R, U, f):
    key = '%s(%s)' % (f['q'], ','.join(p[0] for p in f['params']))
    where = '%s: %s' % (loc(f), sig(f))
    if re.search(r'/(algorithm|numeric|valarray|array|operators?|functional)/', f['file']):
        got = sorted(set(built(f)))
        e = expected(f) if got else None
        if e is not None:
            if not set(got) <= set(e):
                R.bad(key + ' default', '%s uses %s by default, not %s' % (where, '/'.join(got), '/'.join(e)))
            else:
                R.ok(); R.count('default function objects')
    E = Evaluator(U, lambda d, x: False)
    try:
        t = value(E.function(f))
    except (Give, TooBig):
        R.count('bodies outside the rule'); return
    if t is None:
        R.count('bodies outside the rule'); return
    # unwrap pair/result projections is not needed: the forwarding call is the value
    if t[0] == 'ds':
        q, args = t[1] + t[2], t[4]
    elif t[0] == 'call':
        q, args = t[1], t[3]
    elif t[0] == 'm' and t[2] == ('this',):
        q, args = t[1], t[3]
    else:
        return
    if args is None:
        return
    n = q.split('::')[-1]
    fos = [FUNCTOR.match(x[1]).group(1) for x in args if x[0] == 'new' and not x[2] and FUNCTOR.match(x[1]) and FUNCTOR.match(x[1]).group(1) in STD]
    if len(fos) > 1 and 'detail' not in f['q'] and fos != expected(f):
        R.bad(key + ' default order', '%s uses %s by default, not %s' % (where, '/'.join(fos), '/'.join(expected(f) or [])))
    same = n == f['name']
    disp = n.startswith(f['name'] + '_impl') or n.startswith(f['name'] + '_dispatch')
    if not same and not disp:
        return
    if f['name'].startswith('operator') and f['name'] != 'operator()':
        return
    if f.get('clsq') and f['clsq'].startswith('sprout::random::'):
        return      # engines recurse over their state, handled elsewhere
    ps = f['params']
    args = list(args)
    recursive = t[0] == 'call' and q == f['q'] or t[0] == 'm'
    pl = [plain(a) for a in args]
    if recursive and not all(p is not None or a[0] in ('new', 'lit', 'm', 'tp', 'var') for p, a in zip(pl, args)):
        return      # recursion with changed arguments: not a forwarding overload
    R.count('forwarding overloads')
    used = {y[1] for a in args for y in subterms(a) if y[0] == 'p'}
    tag = re.compile(r'(_tag|category|type) ?\*$|integral_constant|true_type|false_type|enabler|indexes|index_tuple|weight<')
    missing = [p[0] for i, p in enumerate(ps) if i not in used and p[0] and not tag.search(p[3])]
    internal = disp or 'detail' in q.split('::') or 'impl' in q.split('::')
    cands = [d for d in U.byq.get(q, []) if d['t'] == 'fn'] or [d for d in U.fns if d['name'] == n and d['file'] == f['file']] if internal else []
    if missing and internal:
        # an internal helper need not take everything; it must when an overload of it takes a parameter of that name
        missing = [m for m in missing if any(p[0] == m for d in cands for p in d['params'])]
    if missing:
        R.bad(key + ' dropped', '%s does not hand its parameter "%s" on to %s' % (where, missing[0], q)); return
    seq = [r[0] for r, a in zip(pl, args) if r is not None and r[1] in ('',) or r is not None and r[1].startswith('cast')]
    if internal:
        names = [ps[r[0]][0] if r is not None and (r[1] == '' or r[1].startswith('cast')) else None for r in pl]
        fit = [d for d in cands if arity_ok(d, len(args))]
        crossed = []
        for d in fit:
            dn = [p[0] for p in d['params']]
            crossed.append(next((x for j, x in enumerate(names) if x and j < len(dn) and dn[j] != x and x in dn and dn[j] in names), None))
        if fit and all(crossed):
            R.bad(key + ' order', '%s hands "%s" on to %s in the place of another parameter: (%s)' % (where, crossed[0], q, ', '.join(show(a, 60) for a in args))); return
    elif seq != sorted(set(seq)):
        R.bad(key + ' order', '%s hands its parameters on to %s out of order or twice: (%s)' % (where, q, ', '.join(show(a, 60) for a in args))); return
    if recursive and t[0] == 'call' and f['q'].startswith('sprout::math::'):
        for r in pl:
            if r is not None and r[1].startswith('cast '):
                ty = r[1][5:]
                if ty != 'double' and 'promote' not in ty:
                    R.bad(key + ' promotion', '%s computes on %s instead of double or the promoted type' % (where, ty)); return
                R.count('promotions checked')
    # ranges spelled out as begin/end must appear in that order
    ends = [(r[0], r[1]) for r in pl if r is not None and r[1] in ('begin', 'end', 'cbegin', 'cend')]
    for (a, x), (b, y) in zip(ends, ends[1:]):
        if a == b and x.endswith('end') and y.endswith('begin') or a > b:
            R.bad(key + ' ends', '%s hands the ends of "%s" on in the wrong order' % (where, ps[a][0])); return
    R.ok()
    R.sample('%s -> %s(%s)' % (f['q'], q, ', '.join(show(a, 40) for a in args)))


if __name__ == '__main__':
    sys.exit(main('C27', check))
