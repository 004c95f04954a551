"""C04: comparison operators are coherent."""
import os, sys, re, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import tu
from ir import loc, sig
from terms import Evaluator, Give, TooBig, pure, show, subterms
from check import main

OPS = ('==', '!=', '<', '>', '<=', '>=')
EQUAL = {'sprout::equal', 'std::equal'}
LEX = {'sprout::lexicographical_compare', 'std::lexicographical_compare'}
BEG, END = ('begin', 'cbegin'), ('end', 'cend')
BOOLT = {'bool', 'const bool'}


HELPER = {'eq': 'E', 'equal': 'E', 'lt': 'L', 'less': 'L'}


class Odd(Exception):
    pass


def end_of(t):
    """('begin'|'end', object term) for begin(x) / x.begin()"""
    if t[0] == 'call' and t[1].split('::')[-1] in BEG + END and len(t[3]) == 1:
        return ('begin' if t[1].split('::')[-1] in BEG else 'end', t[3][0])
    if t[0] == 'm' and t[1] in BEG + END and not t[3]:
        return ('begin' if t[1] in BEG else 'end', t[2])
    return None


def isbool(t):
    return t[0] == 'op' and t[1] in ('u!', '&&', '||') + OPS or t[0] == 'lit' and t[1] == 'bool' or t[0] in ('cast', 'new') and t[1] in BOOLT


class Form:
    """Boolean skeleton of a term"""

    def __init__(self, fixed):
        self.fixed = fixed      # whether the compared sequences have their length in their type
        self.notes = []

    def __call__(self, t):
        k = t[0]
        if k == 'lit' and t[1] == 'bool':
            return ('const', t[2] in ('1', 'True', 'true'))
        if k == 'cast' and t[1] in BOOLT:
            return self(t[2])
        if k == 'new' and t[1] in BOOLT and len(t[2]) == 1:
            return self(t[2][0])
        if k == 'cond':
            c, a, b = self(t[1]), self(t[2]), self(t[3])
            return ('or', ('and', c, a), ('and', ('not', c), b))
        if k == 'op' and t[1] == 'u!':
            return ('not', self(t[2][0]))
        if k == 'op' and t[1] == '&&':
            return ('and', self(t[2][0]), self(t[2][1]))
        if k == 'op' and t[1] == '||':
            return ('or', self(t[2][0]), self(t[2][1]))
        if k == 'op' and t[1] in OPS and len(t[2]) == 2:
            x, y = t[2]
            # three-way members: a.compare(b) against 0
            for (u, v, sw) in ((x, y, False), (y, x, True)):
                if u[0] == 'm' and u[1] == 'compare' and len(u[3]) == 1 and v == ('lit', 'int', '0'):
                    a, b = ('3way', u[2]), ('3way', u[3][0])
                    if not sw: x, y = a, b
                    else: x, y = b, a
                    break
            return self.rel(t[1], x, y)
        if k == 'apply' and len(t[2]) == 2 and t[1][0] == 'new':
            m = re.match(r'(?:::)?(?:sprout|std)::(less|greater|equal_to|not_equal_to|less_equal|greater_equal)\b', t[1][1])
            if m:
                return self.rel({'less': '<', 'greater': '>', 'equal_to': '==', 'not_equal_to': '!=', 'less_equal': '<=', 'greater_equal': '>='}[m.group(1)], t[2][0], t[2][1])
        if k in ('ds', 'call'):
            n, xs = (t[2], t[4]) if k == 'ds' else (t[1].split('::')[-1], t[3])
            if n in HELPER and xs and len(xs) >= 2 and {frozenset(points(x)) for x in xs[:2]} == {frozenset({0}), frozenset({1})}:
                targs = (t[1] if k == 'ds' else '') + '<' + (str(t[3]) if k == 'ds' else str(t[2])) + '>'
                if not re.search(r'\+ 1\b|<0[,>]|, 0,|^<>$', targs):
                    self.notes.append('does not go on with the next element (%s)' % targs)
                return (HELPER[n], ('rest', xs[0]), ('rest', xs[1]))
        if k == 'call' and t[1] in LEX and len(t[3]) == 4:
            e = [end_of(x) for x in t[3]]
            if all(e) and e[0][1] == e[1][1] and e[2][1] == e[3][1] and [x[0] for x in e] == ['begin', 'end'] * 2:
                return ('L', ('seq', e[0][1]), ('seq', e[2][1]))
        if k == 'call' and t[1] in EQUAL:
            e = [end_of(x) for x in t[3]]
            if len(e) == 4 and all(e) and e[0][1] == e[1][1] and e[2][1] == e[3][1] and [x[0] for x in e] == ['begin', 'end'] * 2:
                return ('E', ('seq', e[0][1]), ('seq', e[2][1]))
            if len(e) == 3 and all(e) and e[0][1] == e[1][1] and [x[0] for x in e] == ['begin', 'end', 'begin']:
                if not self.fixed:
                    self.notes.append('compares sequences of run-time length without comparing their lengths')
                return ('E', ('seq', e[0][1]), ('seq', e[2][1]))
        return ('A', t)

    def rel(self, o, x, y):
        if o in ('==', '!=') and (isbool(x) or isbool(y)):
            a, b = self(x), self(y)
            e = ('or', ('and', a, b), ('and', ('not', a), ('not', b)))
            return e if o == '==' else ('not', e)
        if o == '==': return ('E', x, y)
        if o == '!=': return ('not', ('E', x, y))
        if o == '<': return ('L', x, y)
        if o == '>': return ('L', y, x)
        if o == '<=': return ('not', ('L', y, x))
        return ('not', ('L', x, y))


def atoms(f, out):
    k = f[0]
    if k in ('E', 'L', 'A'): out.add(f)
    elif k != 'const':
        for x in f[1:]: atoms(x, out)
    return out


def sub(t, m):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == 'p':
            return m.get(t[1], t)
        return tuple(sub(x, m) for x in t)
    return t


def points(t):
    return {x[1] for x in subterms(t) if x[0] == 'p'}


def proj(t, i):
    return sub(t, {i: ('pt',)})


def ev(f, val):
    k = f[0]
    if k == 'const': return f[1]
    if k == 'not': return not ev(f[1], val)
    if k == 'and': return ev(f[1], val) and ev(f[2], val)
    if k == 'or': return ev(f[1], val) or ev(f[2], val)
    return val(f)


def equiv(f, g):
    """equal as Boolean functions of their atoms; == symmetric, < asymmetric and excluding =="""
    at = sorted(atoms(f, set()) | atoms(g, set()), key=repr)
    cells = {}
    for a in at:
        if a[0] in ('E', 'L'):
            cells.setdefault(frozenset((a[1], a[2])), None)
        else:
            cells.setdefault(a, None)
    names = list(cells)
    if len(names) > 10:
        raise Odd('too many atoms')
    for vs in itertools.product(*[('lt', 'eq', 'gt') if isinstance(n, frozenset) else (True, False) for n in names]):
        v = dict(zip(names, vs))

        def val(a):
            if a[0] == 'A': return v[a]
            if a[1] == a[2]: return a[0] == 'E'
            s = frozenset((a[1], a[2]))
            lo = sorted(s, key=repr)[0]
            r = v[s]
            if a[0] == 'E': return r == 'eq'
            return r == ('lt' if a[1] == lo else 'gt')
        if ev(f, val) != ev(g, val):
            return False
    return True


def compile_(f, ps):
    k = f[0]
    if k == 'const': return f
    if k in ('A', 'E', 'L') and not (points(f) & {0, 1}):
        return ('K', ps.index(f))
    if k == 'A':
        p, i = side(f[1])
        return ('U', ps.index(p), i)
    if k in ('E', 'L'):
        (p, i), (q, j) = side(f[1]), side(f[2])
        return (k, ps.index(p), i, ps.index(q), j)
    return (k,) + tuple(compile_(x, ps) for x in f[1:])


def run(f, r, m):
    k = f[0]
    if k == 'and': return run(f[1], r, m) and run(f[2], r, m)
    if k == 'or': return run(f[1], r, m) or run(f[2], r, m)
    if k == 'not': return not run(f[1], r, m)
    if k == 'E': return r[f[1]][m[f[2]]] == r[f[3]][m[f[4]]]
    if k == 'L': return r[f[1]][m[f[2]]] < r[f[3]][m[f[4]]]
    if k == 'K': return r[f[1]][0] != 0
    if k == 'U': return r[f[1]][m[f[2]]] != 0
    return f[1]


def model(R, f, kind, projections, n):
    """all assignments of ranks 0..2 to the projections of n points"""
    ps = sorted(projections, key=repr)
    if len(ps) * n > 9:
        return None
    c = compile_(f, ps)
    for r in itertools.product(itertools.product(range(3), repeat=n), repeat=len(ps)):
        if kind == 'eq':
            if not run(c, r, (0, 0)): return 'is not reflexive'
            if n > 1 and run(c, r, (0, 1)) != run(c, r, (1, 0)): return 'is not symmetric'
            if n > 2 and run(c, r, (0, 1)) and run(c, r, (1, 2)) and not run(c, r, (0, 2)): return 'is not transitive'
        else:
            if run(c, r, (0, 0)): return 'is true of a value and itself'
            if n > 1 and run(c, r, (0, 1)) and run(c, r, (1, 0)): return 'can hold both ways round'
            if n > 2 and run(c, r, (0, 1)) and run(c, r, (1, 2)) and not run(c, r, (0, 2)): return 'is not transitive'
    return False


def side(t):
    pt = points(t)
    k = next(iter(pt))
    return (proj(t, k), k)


def homog(f):
    """projections when every atom compares the same member of both sides (or is a flag of one side); a string when two different members meet; None otherwise"""
    ps = set()
    for a in atoms(f, set()):
        if not (points(a) & {0, 1}):
            ps.add(a)
        elif a[0] == 'A':
            if len(points(a[1])) != 1:
                return None
            ps.add(side(a[1])[0])
        else:
            if len(points(a[1])) != 1 or len(points(a[2])) != 1: return None
            (p, i), (q, j) = side(a[1]), side(a[2])
            if i == j: return None
            if p != q:
                return 'compares "%s" of one side with "%s" of the other' % (show(p), show(q))
            ps.add(p)
    return ps


def tkey(ts):
    m = {}

    def ren(x):
        return m.setdefault(x.group(0), '#%d' % len(m))
    return tuple(re.sub(r'type-parameter-\d+-\d+', ren, re.sub(r'\s*(const\b|&)\s*', '', t)) for t in ts)


def fixed_size(U, f):
    for p in f['params']:
        cls = re.sub(r'\s*(const\b|&)\s*', '', p[3])
        base = re.sub(r'<.*', '', cls)
        if base in ('sprout::array', 'sprout::uuids::uuid', 'std::array'):
            return True
        for g in U.byq.get(base + '::size', []) if hasattr(U.byq, 'get') else []:
            if 'body' in g:
                try:
                    t = pure(Evaluator(U, lambda d, x: False).function(g))
                except (Give, TooBig):
                    continue
                if t is not None and not any(x[0] in ('this', 'm') for x in subterms(t)):
                    return True
        if f.get('clsq'):
            return True
    return False


def getters(U, f, t):
    """$i.name() -> $i.field where the class of parameter i defines name() as just that field"""
    def cls(i):
        return re.sub(r'<.*', '', re.sub(r'\s*(const\b|&)\s*', '', f['params'][i][3]))

    def go(t):
        if not isinstance(t, tuple): return t
        t = tuple(go(x) for x in t)
        if t and t[0] == 'm' and len(t) == 4 and not t[3] and isinstance(t[2], tuple) and (t[2] == ('this',) or t[2][0] == 'p' and len(t[2]) == 2):
            c = f.get('clsq') if t[2] == ('this',) else cls(t[2][1])
            if t[1] in BEG + END: return t
            for g in U.byq.get('%s::%s' % (c, t[1]), []):
                if 'body' in g and not g['params']:
                    b = g['body']
                    b = b[1] if b[0] == 'block' else [b]
                    if len(b) == 1 and b[0][0] == 'ret' and b[0][1] and b[0][1][0] in ('member', 'icast'):
                        try:
                            v = pure(Evaluator(U, lambda d, x: False).function(g))
                        except (Give, TooBig):
                            continue
                        if v is not None and v[0] == 'f' and v[2] == ('this',):
                            return ('f', v[1], t[2])
        return t
    return go(t)


def check(R, tier):
    R.rule('For every comparison operator returning bool the body becomes a Boolean formula over atoms "member of left < / == member of right" (Herbrand value numbering of the AST, >, <=, >=, != '
           'rewritten). Obligations: x != y is not (x == y); x > y is y < x; x <= y is not (y < x); x >= y is not (x < y), as Boolean functions; == is an equivalence and < a strict order excluding == '
           'for all orders of the compared members; both sides of a comparison name the same member; sequences of run-time length are compared with their length.')
    R.assume += ['Members compared are totally ordered.', 'Opaque atoms (calls the rules do not know) make the order axioms undecided, never violated.']
    U = tu.header_units(('portable17',))['portable17']
    fam = {}
    for f in U.fns:
        m = re.match(r'operator(==|!=|<=|>=|<|>)$', f['name'])
        if not m or 'body' not in f or f.get('inst'):
            continue
        if f.get('cret', f.get('ret')) not in BOOLT:
            R.count('operators not returning bool'); continue
        member = f['kind'] != 'fn' and f.get('clsq') and len(f['params']) == 1
        t = None
        for inl in (lambda d, x: x < 2 and d['q'].startswith('sprout::') and not d['name'].startswith('operator') and d['q'] not in EQUAL | LEX and d['name'] not in BEG + END + ('compare', 'size'),
                    lambda d, x: False):
            try:
                t = pure(Evaluator(U, inl).function(f))
            except (Give, TooBig) as x:
                t = None
            if t is not None:
                break
        if t is not None:
            t = getters(U, f, t)
        if member:
            ts = tkey([f['clsq'], f['params'][0][3]])
            if t is not None:
                t = swap_this(t)
        else:
            ts = tkey([p[3] for p in f['params']])
        R.count('operators')
        if t is None:
            R.undecided('%s: body is not a single value' % loc(f)); continue
        F = Form(fixed_size(U, f))
        try:
            g = F(t)
        except Odd as x:
            R.undecided('%s: %s' % (loc(f), x)); continue
        for n in F.notes:
            R.bad('%s %s length' % (f['q'], ts), '%s: %s %s' % (loc(f), sig(f), n))
        fam.setdefault((f['file'].rsplit('/', 1)[0], ts), {})[m.group(1)] = (f, t, g)
    helpers(R, U)
    for (d, ts), ops in sorted(fam.items()):
        rts = tkey([ts[1], ts[0]])
        rev = fam.get((d, rts), {})
        base(R, d, ts, ops, rev)
    R.floor('operators', 200)
    R.floor('derived operators decided', 150)


def helpers(R, U):
    """static recursion over the elements of a tuple / the alternatives of a variant"""
    for f in U.fns:
        if f['name'] not in HELPER or 'body' not in f or len(f['params']) < 2 or f.get('inst') or 'bool' not in f.get('cret', f.get('ret')) or 'traits' in f['q']:
            continue
        if '/tuple/' not in f['file'] and '/variant/' not in f['file']:
            continue
        try:
            t = pure(Evaluator(U, lambda d, x: False).function(f))
        except (Give, TooBig):
            continue
        if t is None: continue
        R.count('element-wise comparison helpers')
        F = Form(True)
        g = F(t)
        key = 'helper %s %d' % (f['q'], len(atoms(g, set())))
        for n in F.notes:
            R.bad(key + ' step', '%s: %s %s' % (loc(f), sig(f), n))
        if t[0] == 'lit':
            if '/tuple/' in f['file'] and (t[2] in ('1', 'True', 'true')) != (HELPER[f['name']] == 'E'):
                R.bad(key + ' end', '%s: %s says %s of two empty remainders' % (loc(f), sig(f), show(t)))
            else: R.ok()
            continue
        h = homog(g)
        if isinstance(h, str):
            R.bad(key + ' members', '%s: %s %s' % (loc(f), sig(f), h)); continue
        r = model(R, g, 'eq' if HELPER[f['name']] == 'E' else 'lt', h, 3) if h is not None else None
        if r is None:
            R.undecided('%s: %s' % (loc(f), show(t, 100)))
        elif r:
            R.bad(key + ' axiom', '%s: %s = %s %s' % (loc(f), sig(f), show(t), r))
        else:
            R.ok()


def swap_this(t):
    """member operator: *this is point 0, its parameter point 1"""
    if isinstance(t, tuple):
        if t == ('this',): return ('p', 0)
        if len(t) == 2 and t[0] == 'p': return ('p', t[1] + 1)
        return tuple(swap_this(x) for x in t)
    return t


def flip(g):
    return sub(g, {0: ('p', 1), 1: ('p', 0)})


P0, P1 = ('p', 0), ('p', 1)


def base(R, d, ts, ops, rev):
    who = '%s and %s (%s)' % (ts[0], ts[1], d)
    key = '%s %s|%s' % (d, ts[0], ts[1])
    E, L = ('E', P0, P1), ('L', P0, P1)
    want = {'!=': ('not', E), '>': ('L', P1, P0), '<=': ('not', ('L', P1, P0)), '>=': ('not', L)}
    same = ts[0] == ts[1] or tkey([ts[0]]) == tkey([ts[1]])

    def full(op):
        """formula of a primitive operator in terms of what it compares"""
        return ops[op][2] if op in ops else None

    def rl(op):
        o = ops if same else rev
        return flip(o[op][2]) if op in o else None
    for op, w in want.items():
        if op not in ops: continue
        f, t, g = ops[op]
        R.count('derived operators')
        cands = [w]
        # with the primitive operator expanded
        if op == '!=' and full('=='): cands.append(('not', full('==')))
        if op == '>=' and full('<'): cands.append(('not', full('<')))
        if op == '>' and rl('<'): cands.append(rl('<'))
        if op == '<=' and rl('<'): cands.append(('not', rl('<')))
        try:
            ok = any(equiv(g, c) for c in cands)
        except Odd as x:
            R.undecided('%s: %s' % (loc(f), x)); continue
        if ok:
            R.ok(); R.count('derived operators decided')
            R.sample('%s: %s = %s' % (who, op, show(t, 80)))
            continue
        prim = '==' if op == '!=' else '<'
        # expanded but with opaque pieces: only judged when all atoms are relations or shared
        at = atoms(g, set())
        if any(a[0] == 'A' for a in at) and not (len(cands) > 1 and at <= atoms(cands[-1], set())) and not at <= {E, L, ('L', P1, P0), ('E', P1, P0)}:
            # an opaque call both sides of the family share cannot be compared
            if any(a[0] == 'A' and a[1][0] not in ('p',) for a in at):
                R.undecided('%s: %s = %s' % (loc(f), op, show(t, 100))); continue
        R.bad(key + ' ' + op, '%s: %s is %s, which is not %s' % (loc(f), sig(f), show(t), {'!=': 'the negation of ==', '>': 'x < y with the operands exchanged', '<=': 'the negation of y < x', '>=': 'the negation of x < y'}[op]))
    for op, kind in (('==', 'eq'), ('<', 'lt')):
        if op not in ops: continue
        f, t, g = ops[op]
        R.count('primitive operators')
        # heterogeneous: delegation to the reversed overload must be the same relation
        if not same:
            at = atoms(g, set())
            if op == '<' and any(a[0] == 'E' and {a[1], a[2]} == {P0, P1} for a in at) and not any(a[0] == 'L' for a in at):
                R.bad(key + ' <', '%s: %s is %s: the order is decided by equality' % (loc(f), sig(f), show(t)))
            elif op == '==' and any(a[0] == 'L' and {a[1], a[2]} == {P0, P1} for a in at) and not any(a[0] == 'E' for a in at) and len(at) == 1:
                R.bad(key + ' ==', '%s: %s is %s: equality is decided by the order' % (loc(f), sig(f), show(t)))
            else:
                R.ok(); R.count('mixed-type primitives')
            continue
        h = homog(g)
        if isinstance(h, str):
            R.bad(key + ' ' + op + ' members', '%s: %s %s' % (loc(f), sig(f), h)); continue
        if h is None:
            R.undecided('%s: %s = %s' % (loc(f), op, show(t, 100))); continue
        bad = None
        for n in (3, 2, 1):
            r = model(R, g, kind, h, n)
            if r is None: continue
            bad = r
            break
        else:
            R.undecided('%s: %s compares too many members' % (loc(f), op)); continue
        if bad:
            R.bad(key + ' ' + op + ' axiom', '%s: %s = %s %s' % (loc(f), sig(f), show(t), bad)); continue
        R.ok(); R.count('primitive operators decided')
    if same and '==' in ops and '<' in ops:
        f, t, g = ops['<']
        h1, h2 = homog(ops['=='][2]), homog(g)
        if isinstance(h1, set) and isinstance(h2, set):
            ps = sorted(h1 | h2, key=repr)
            if len(ps) <= 4:
                conj = compile_(('and', ops['=='][2], g), ps)
                for r in itertools.product(itertools.product(range(3), repeat=2), repeat=len(ps)):
                    if run(conj, r, (0, 1)):
                        R.bad(key + ' == and <', '%s: x == y and x < y can both hold: == is %s, < is %s' % (loc(f), show(ops['=='][1]), show(t))); break
                else:
                    R.ok(); R.count('== excludes <')


if __name__ == '__main__':
    sys.exit(main('C04', check))
