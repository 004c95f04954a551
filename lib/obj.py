"""Abstract interpretation of small class bodies in a linear position domain.

An object is a record of fields; a scalar or iterator value is a polynomial with integer coefficients over opaque atoms (the fields an
object started with, parameters, *p, results of calls that are not looked into).  An iterator or array is the position it denotes, so
`it + n`, `next(it, n)`, `&a[n]`, `begin(c) + n` are sums, and a[n], *(a + n), *next(begin(a), n) are one atom.  Conditions over
linear forms are decided from what is already assumed, or assumed both ways in turn (each assignment of them is one case)."""
import re
from ir import arity_ok, has_pack
from terms import Give, FORWARD, strip

CASES = 96


def bare(q):
    out, d = [], 0
    for c in q:
        if c == '<': d += 1
        elif c == '>': d -= 1
        elif d == 0: out.append(c)
    return ''.join(out).strip()


def clsname(ty):
    """class named by a canonical type string (references and const removed), None when it is not one of the library's"""
    t = ty.strip()
    while True:
        if t.endswith('&'): t = t[:-1].strip(); continue
        if t.startswith('const '): t = t[6:].strip(); continue
        if t.startswith('typename '): return None
        if t.endswith(' const'): t = t[:-6].strip(); continue
        break
    if t.endswith('*') or not t.startswith('sprout::'):
        return None
    d = 0
    for i, c in enumerate(t):
        if c == '<': d += 1
        elif c == '>':
            d -= 1
            if d == 0 and i != len(t) - 1:
                return None
    return bare(t)


class Lin:
    """polynomial: {sorted tuple of atoms: coefficient}; () is the constant"""
    __slots__ = ('t', 'k')

    def __init__(self, t):
        self.t = {m: c for m, c in t.items() if c}
        self.k = None

    def key(self):
        if self.k is None:
            self.k = ('lin',) + tuple(sorted(self.t.items(), key=repr))
        return self.k

    def const(self):
        if not self.t: return 0
        if len(self.t) == 1 and () in self.t: return self.t[()]
        return None

    def __add__(self, o):
        r = dict(self.t)
        for m, c in o.t.items(): r[m] = r.get(m, 0) + c
        return Lin(r)

    def neg(self):
        return Lin({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + o.neg()

    def mul(self, o):
        r = {}
        for m, c in self.t.items():
            for n, d in o.t.items():
                k = tuple(sorted(m + n, key=repr))
                r[k] = r.get(k, 0) + c * d
        return Lin(r)

    def atom(self):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1: return m[0]
        return None

    def __repr__(self):
        return showlin(self)


def num(n): return Lin({(): n})
def at(a): return Lin({(a,): 1})


class Cell:
    __slots__ = ('v', 'const')
    def __init__(self, v, const=False):
        self.v = v


class Obj:
    __slots__ = ('c', 'f', 'name')
    def __init__(self, c, f, name=None):
        self.c, self.f, self.name = c, f, name      # name: the prefix its fields start from, while none was written


# an array of few elements, element by element
ARR = {'t': 'rec', 'id': -1, 'q': 'array', 'name': 'array', 'fields': [], 'bases': []}
ARRS = False


def dim(cty):
    if not ARRS: return None
    m = re.match(r'^(?:const )?(?:sprout::array<.*, (\d+)>|[^\[\]]*\[(\d+)\])$', cty.strip())
    n = int(m.group(1) or m.group(2)) if m else 0
    return n if 1 < n <= 8 else None


class Ptr:
    __slots__ = ('cell',)
    def __init__(self, cell): self.cell = cell


class Thrown(Exception):
    pass


class Infeasible(Exception):
    """the case's assumptions contradict one another"""


def copyv(v):
    if isinstance(v, Obj):
        return Obj(v.c, {n: Cell(copyv(c.v)) for n, c in v.f.items()}, v.name)
    return v


class Facts:
    """what the current case assumes about linear forms"""
    def __init__(self, choices):
        self.choices = choices
        self.i = 0
        self.iv = {}     # direction key -> [lo, hi, {excluded}]
        self.log = []
        self.opaque = False     # a condition is about a value that is not looked into

    def dirn(self, L):
        c = L.t.get((), 0)
        d = {m: k for m, k in L.t.items() if m != ()}
        s = 1
        first = min(d, key=repr)
        if d[first] < 0: s = -1
        D = Lin({m: s * k for m, k in d.items()})
        return D, s, c

    def choose(self, what, D):
        if any(deep_opaque(x) for m in D.t for x in m): self.opaque = True
        if self.i < len(self.choices):
            r = self.choices[self.i]
        else:
            r = True
            self.choices.append(True)
            if len(self.choices) > 12: raise Give('too many conditions')
        self.i += 1
        self.log.append((what, r))
        return r

    def get(self, D):
        return self.iv.setdefault(D.key(), [None, None, set()])

    def fixed(self, L):
        """value of L when known"""
        k = L.const()
        if k is not None: return k
        D, s, c = self.dirn(L)
        v = self.iv.get(D.key())
        if v and v[0] is not None and v[0] == v[1]: return s * v[0] + c
        return None

    def bounds(self, L):
        """interval of L from what is known of its single terms and of its direction"""
        lo = hi = L.t.get((), 0)
        for m, c in L.t.items():
            if m == (): continue
            v = self.iv.get(Lin({m: 1}).key())
            a, b = (v[0], v[1]) if v else (None, None)
            if c < 0: a, b = b, a
            lo = lo + c * a if lo is not None and a is not None else None
            hi = hi + c * b if hi is not None and b is not None else None
        D, s, c = self.dirn(L)
        v = self.iv.get(D.key())
        if v:
            a, b = (v[0], v[1]) if s > 0 else (v[1], v[0])
            if a is not None: lo = max(x for x in (lo, s * a + c) if x is not None)
            if b is not None: hi = min(x for x in (hi, s * b + c) if x is not None)
        return lo, hi

    def assume_ge(self, L):
        """L >= 0 is taken for granted"""
        if L.const() is not None:
            if L.const() < 0: raise Infeasible()
            return
        D, s, c = self.dirn(L)
        v = self.get(D)
        if s > 0: v[0] = -c if v[0] is None else max(v[0], -c)
        else: v[1] = c if v[1] is None else min(v[1], c)
        if v[0] is not None and v[1] is not None and v[0] > v[1]: raise Infeasible()

    def eq0(self, L):
        k = L.const()
        if k is not None: return k == 0
        lo, hi = self.bounds(L)
        if lo is not None and lo > 0 or hi is not None and hi < 0: return False
        if lo is not None and lo == hi: return lo == 0
        D, s, c = self.dirn(L)
        v = self.get(D)
        x = -c * s          # D == x
        lo, hi, ex = v
        if lo is not None and lo == hi: return lo == x
        if x in ex or (lo is not None and x < lo) or (hi is not None and x > hi): return False
        if self.choose('%s == %s' % (showlin(D), x), D):
            v[0] = v[1] = x
            self.tight(v)
            return True
        ex.add(x)
        self.tight(v)
        return False

    def tight(self, v):
        while v[0] is not None and v[0] in v[2]: v[0] += 1
        while v[1] is not None and v[1] in v[2]: v[1] -= 1
        self.propagate()

    def single(self, m):
        return self.iv.get(Lin({m: 1}).key()) or [None, None, ()]

    def propagate(self):
        """bounds of sums to their terms and back"""
        for _ in range(6):
            ch = False
            for k, v in list(self.iv.items()):
                while v[0] is not None and v[0] in v[2]: v[0] += 1
                while v[1] is not None and v[1] in v[2]: v[1] -= 1
                if v[0] is not None and v[1] is not None and v[0] > v[1]: raise Infeasible()
                t = k[1:]
                if len(t) < 2 or (v[0] is None and v[1] is None): continue
                lo = hi = 0
                b = []
                for m, c in t:
                    x = self.single(m)
                    l, h = (x[0], x[1]) if c > 0 else (x[1], x[0])
                    l = c * l if l is not None else None
                    h = c * h if h is not None else None
                    b.append((m, c, l, h))
                for i, (m, c, _, _) in enumerate(b):
                    ol = [l for j, (_, _, l, _) in enumerate(b) if j != i]
                    oh = [h for j, (_, _, _, h) in enumerate(b) if j != i]
                    # c*m in [v0 - sum(oh), v1 - sum(ol)]
                    nl = v[0] - sum(oh) if v[0] is not None and None not in oh else None
                    nh = v[1] - sum(ol) if v[1] is not None and None not in ol else None
                    if c < 0: nl, nh = (-nh if nh is not None else None), (-nl if nl is not None else None)
                    a = abs(c)
                    if nl is not None: nl = -((-nl) // a)
                    if nh is not None: nh = nh // a
                    if nl is None and nh is None: continue
                    x = self.iv.setdefault(Lin({m: 1}).key(), [None, None, set()])
                    if nl is not None and (x[0] is None or nl > x[0]): x[0] = nl; ch = True
                    if nh is not None and (x[1] is None or nh < x[1]): x[1] = nh; ch = True
                    if x[0] is not None and x[1] is not None and x[0] > x[1]: raise Infeasible()
            if not ch: break

    def ge0(self, L):
        k = L.const()
        if k is not None: return k >= 0
        lo, hi = self.bounds(L)
        if lo is not None and lo >= 0: return True
        if hi is not None and hi < 0: return False
        D, s, c = self.dirn(L)
        v = self.get(D)
        lo, hi, ex = v
        if s > 0:
            x = -c                      # D >= x
            if lo is not None and lo >= x: return True
            if hi is not None and hi < x: return False
            r = self.choose('%s >= %s' % (showlin(D), x), D)
            if r: v[0] = x
            else: v[1] = x - 1
        else:
            x = c                       # D <= x
            if hi is not None and hi <= x: return True
            if lo is not None and lo > x: return False
            r = self.choose('%s <= %s' % (showlin(D), x), D)
            if r: v[1] = x
            else: v[0] = x + 1
        self.tight(v)
        return r


NEXT = {'sprout::next', 'std::next', 'sprout::iterator_next', 'sprout::iterator_detail::next_impl'}
PREV = {'sprout::prev', 'std::prev', 'sprout::iterator_prev'}
DIST = {'sprout::distance', 'std::distance'}
BEGIN = {'sprout::begin', 'sprout::cbegin', 'std::begin', 'std::cbegin', 'sprout::data', 'begin', 'cbegin'}
END = {'sprout::end', 'sprout::cend', 'std::end', 'end', 'cend'}
SIZE = {'sprout::size', 'std::size', 'sprout::container_size'}
SWAP = {'sprout::swap', 'std::swap', 'swap', 'sprout::swap_detail::swap'}
MIN = {'sprout::min', 'sscrisk::cel::min', 'std::min'}
MAX = {'sprout::max', 'sscrisk::cel::max', 'std::max'}
ADDR = {'sprout::addressof', 'std::addressof'}
FUNOBJ = {'less': '<', 'greater': '>', 'less_equal': '<=', 'greater_equal': '>=', 'equal_to': '==', 'not_equal_to': '!=', 'plus': '+', 'minus': '-', 'multiplies': '*', 'divides': '/', 'modulus': '%'}
INTEGRAL = re.compile(r'^(const )?(unsigned |signed )?(int|long|short|char|long long|unsigned|std::size_t|std::ptrdiff_t|size_t|ptrdiff_t|(u?int\w*_t)|.*(difference_type|size_type|index_type|int_type|Int\w*))( int| long)*( const)?$')


class Interp:
    def __init__(self, U, C, maxnodes=6000, boolfields=True, positions=('sprout::index_iterator',), ptrpos=('sprout::ptr_index_iterator',)):
        """C: Index of the unit"""
        self.U, self.C = U, C
        self.maxnodes = maxnodes
        self.known = {}
        self.positions, self.ptrpos = positions, ptrpos
        self.cells = {}

    # ---- driving
    def cases(self, fn):
        """fn(self) run once for every assignment of the conditions it meets"""
        ch = []
        n = 0
        while True:
            self.facts = Facts(ch)
            self.n = 0
            self.depth = 0
            self.cells = {}
            try:
                fn(self)
            except Infeasible:
                pass
            n += 1
            while ch and not ch[-1]: ch.pop()
            if not ch: return n
            if n >= CASES: raise Give('too many cases')
            ch[-1] = False

    def new(self, rec, name):
        """an object of the class in an arbitrary state"""
        f = {}
        o = Obj(rec, f, name)
        for r in self.C.bases(rec):
            for x in r['fields']:
                f[x[0]] = Cell(self.symval(name + '.' + x[0], x[3]))
        return o

    def symval(self, name, cty):
        n = dim(cty)
        if n: return Obj(ARR, {str(i): Cell(at(('f', '%s.%d' % (name, i)))) for i in range(n)}, name)
        if cty.strip() in ('bool', 'const bool'):
            return at(('bool', name))
        return at(('f', name))

    def load(self, v):
        if isinstance(v, Lin):
            a = v.atom()
            if a is not None and a[0] == 'bool':
                return self.facts.eq0(at(a) - num(1))
        return v

    # ---- helpers on values
    def lin(self, v):
        if isinstance(v, bool): return num(int(v))
        if isinstance(v, Lin): return v
        if isinstance(v, Ptr):
            self.cells[id(v.cell)] = v.cell
            return at(('ptr', id(v.cell)))
        if isinstance(v, Obj):
            return at(self.key(v))
        raise Give('not a number: %r' % (v,))

    def key(self, v):
        if isinstance(v, bool): return num(int(v)).key()
        if isinstance(v, Lin): return v.key()
        if isinstance(v, Obj): return ('obj', bare(v.c['q']), tuple(sorted(((n, self.key(c.v)) for n, c in v.f.items()), key=repr)))
        if isinstance(v, Ptr):
            self.cells[id(v.cell)] = v.cell
            return ('ptr', id(v.cell))
        return ('v', repr(v))

    def truth(self, v):
        v = self.load(v)
        if isinstance(v, bool): return v
        if isinstance(v, Lin): return not self.facts.eq0(v)
        if isinstance(v, Ptr): return True
        raise Give('condition on an object')

    def deref(self, v, constq=False):
        v = self.load(v)
        if isinstance(v, Ptr): return v.cell
        if isinstance(v, Lin):
            for m, c in v.t.items():
                if len(m) == 1 and m[0][0] == 'pos' and c == 1:
                    cell = self.cells[m[0][1]]
                    return self.index(cell, v - at(m[0]))
                if len(m) == 1 and m[0][0] == 'ptr' and c == 1 and v.t == {m: 1}:
                    return self.cells[m[0][1]]
            a = v.atom()
            if a is not None and a[0] == 'addr': return Cell(Lin(dict(a[1][1:])))
            return Cell(at(('deref', v.key())))
        if isinstance(v, Obj):
            return self.operator('*', [Cell(v)])
        raise Give('dereference')

    def addr(self, cell):
        v = cell.v
        if isinstance(v, Lin):
            a = v.atom()
            if a is not None and a[0] == 'deref': return Lin(dict(a[1][1:]))
            if a is not None and a[0] in ('f', 'p', 'bool'): 
                self.cells[id(cell)] = cell
                return Ptr(cell)
            return at(('addr', v.key()))
        return Ptr(cell)

    def index(self, cell, i):
        v = cell.v
        i = self.load(i)
        if isinstance(v, Obj) and v.c is ARR:
            k = i.const() if isinstance(i, Lin) else None
            if k is None or str(k) not in v.f: raise Give('index')
            return v.f[str(k)]
        if isinstance(v, Obj):
            return self.operator('[]', [cell, Cell(i)])
        if isinstance(v, (Lin, Ptr)):
            return self.deref(self.lin(v) + self.lin(i))
        raise Give('index')

    def div(self, a, b):
        ka, kb = a.const(), b.const()
        if kb is not None:
            if kb == 0: raise Give('division by zero')
            if ka is not None:
                q = abs(ka) // abs(kb)
                return num(q if (ka < 0) == (kb < 0) else -q)
            if all(c % kb == 0 for c in a.t.values()):
                return Lin({m: c // kb for m, c in a.t.items()})
        elif len(b.t) == 1:
            (m, c), = b.t.items()
            r = {}
            for n, d in a.t.items():
                l = list(n)
                ok = d % c == 0
                for x in m:
                    if x in l: l.remove(x)
                    else: ok = False
                if not ok: r = None; break
                r[tuple(l)] = d // c
            if r is not None: return Lin(r)
        f = self.facts.fixed(a)
        if f is not None and kb is not None: return self.div(num(f), b)
        return at(('op', '/', a.key(), b.key()))

    def mod(self, a, b):
        ka, kb = a.const(), b.const()
        if kb is not None and kb != 0:
            if ka is not None:
                r = abs(ka) % abs(kb)
                return num(-r if ka < 0 else r)
            if all(c % kb == 0 for c in a.t.values()): return num(0)
        return at(('op', '%', a.key(), b.key()))

    def bits(self, o, a, b):
        ka, kb = a.const(), b.const()
        if ka is not None and kb is not None:
            if o == '&': return num(ka & kb)
            if o == '|': return num(ka | kb)
            if o == '^': return num(ka ^ kb)
            if kb >= 0 and o == '<<' and kb < 64: return num(ka << kb)
            if kb >= 0 and o == '>>': return num(ka >> kb)
        return at(('op', o, a.key(), b.key()))

    def arith(self, o, x, y):
        if isinstance(x, Obj) or isinstance(y, Obj): raise Give('arithmetic on an object')
        if isinstance(x, Ptr) and isinstance(y, Ptr) and o in ('==', '!='):
            return (x.cell is y.cell) == (o == '==')
        a, b = self.lin(x), self.lin(y)
        if o == '+': return a + b
        if o == '-': return a - b
        if o == '*': return a.mul(b)
        if o == '/': return self.div(a, b)
        if o == '%': return self.mod(a, b)
        if o in ('&', '|', '^', '<<', '>>'): return self.bits(o, a, b)
        if o == '==': return self.facts.eq0(a - b)
        if o == '!=': return not self.facts.eq0(a - b)
        if o == '<': return not self.facts.ge0(a - b)
        if o == '>=': return self.facts.ge0(a - b)
        if o == '>': return not self.facts.ge0(b - a)
        if o == '<=': return self.facts.ge0(b - a)
        raise Give('operator ' + o)

    # ---- calls
    def fits(self, d, cells, this=None):
        """how well the arguments suit the parameters; None: not at all"""
        ps = d['params']
        if not arity_ok(d, len(cells)): return None
        sc = 0
        for i, c in enumerate(cells):
            p = ps[min(i, len(ps) - 1)]
            if p[5]: continue
            k = clsname(p[3])
            v = c.v
            if isinstance(v, Obj) and v.c is ARR and dim(p[3].replace('const', '').strip(' &')):
                if dim(p[3].replace('const', '').strip(' &')) != len(v.f): return None
                sc += 4
                continue
            if 'nullptr_t' in p[3] and not (isinstance(v, Lin) and v.const() == 0): return None
            if k is not None and k in self.C.recs:
                if not isinstance(v, Obj):
                    a = v.atom() if isinstance(v, Lin) else None
                    if a is not None and a[0] != 'p': sc -= 3; continue
                    return None
                if bare(v.c['q']) != k and not any(bare(b['q']) == k for b in self.C.bases(v.c)):
                    return None
                if not self.C.suits(p[3], v.c): return None
                sc += 4 if bare(v.c['q']) == k else 2
                if isinstance(v, Obj) and re.search(r'const', p[3]) is None and p[3].endswith('&') and not p[3].endswith('&&'): sc += 0
            elif isinstance(v, Obj):
                if INTEGRAL.match(p[3]) or INTEGRAL.match(p[2]) or p[3] in ('bool', 'double', 'float'): return None
                if not re.search(r'type-parameter|auto', p[3]) and not p[3].startswith('typename'): return None
                sc -= 1
            else:
                if re.match(r'type-parameter', re.sub(r'^const |[ &]', '', p[3])): sc -= 1
        return sc

    def pick(self, cands, cells, many=False):
        best = []
        for d in cands:
            if d['t'] != 'fn' or d.get('deleted'): continue
            s = self.fits(d, cells)
            if s is None: continue
            best.append((s, d))
        if not best: return None
        m = max(s for s, _ in best)
        b = [d for s, d in best if s == m]
        if len(b) > 1:
            nt = [d for d in b if not d.get('inst')]
            b = nt or b
        if len(b) > 1:
            nt = [d for d in b if not any('type-parameter-1' in p[3] or 'type-parameter-2' in p[3] for p in d['params'])]
            if len(nt) == 1: b = nt
        if len(b) == 2 and [p[3] for p in b[0]['params']] == [p[3] for p in b[1]['params']] and bool(b[0].get('const')) != bool(b[1].get('const')):
            b = [d for d in b if d.get('const')]
        if len(b) != 1:
            if many: return b
            raise Give('several overloads of %s suit' % b[0]['q'])
        return b[0]

    def run(self, d, cells, this=None):
        """call of function d; -> Cell of the result, None for void"""
        if 'body' not in d:
            if d.get('defaulted') and d['name'] == 'operator=' and this is not None and isinstance(this.v, Obj) and isinstance(cells[0].v, Obj):
                this.v = copyv(cells[0].v)
                return this
            raise Give('no body: ' + d['q'])
        if self.depth > 24: raise Give('deep recursion in ' + d['q'])
        env = {}
        self.bind(d, cells, env, this)
        self.depth += 1
        try:
            r = self.stmt(d['body'], Frame(env, this, d))
        finally:
            self.depth -= 1
        if r is None or r[0] is None: return None
        c = r[0]
        ret = (d.get('cret') or d.get('ret') or '').strip()
        if ret.endswith('&') or ret.startswith('decltype') or 'reference' in ret or ret.startswith('typename') or ret == 'auto': return c
        k = clsname(ret)
        if k in self.C.recs and not isinstance(c.v, Obj) and not (isinstance(c.v, Lin) and c.v.atom()):
            return Cell(self.construct_type(ret, [c], Frame(env, this, d)))
        return Cell(copyv(self.load(c.v)))

    def bind(self, d, cells, env, this):
        ps = d['params']
        for i, p in enumerate(ps):
            if p[5]:
                if len(cells) > i: raise Give('parameter pack')
                continue
            if i < len(cells):
                c = cells[i]
                env[('P', p[1])] = c if p[3].rstrip().endswith('&') else Cell(copyv(c.v))
            else:
                env[('P', p[1])] = self.default(d, i, this)

    def default(self, d, i, this):
        x = d['params'][i]
        v = x[4]
        if isinstance(v, list): return Cell(self.ev(v, Frame({}, this, d)))
        return Cell(at(('default', d['q'], i)))

    def operator(self, o, cells):
        v = cells[0].v
        name = 'operator' + o
        best = []
        if isinstance(v, Obj):
            ms = [d for d in self.C.method(v.c, name) if arity_ok(d, len(cells) - 1)]
            if ms:
                d = self.pick_method(v, name, cells[1:], ms)
                if d is not None:
                    s = self.fits(d, cells[1:])
                    if s is not None: best.append((s + 4, 0, d))
        cand = [f for f in self.C.free.get(name, []) if len(f['params']) == len(cells) and any(clsname(p[3]) in self.C.recs for p in f['params'])]
        d = self.pick(cand, cells)
        if d is not None: best.append((self.fits(d, cells), 1, d))
        if best:
            best.sort(key=lambda x: -x[0])
            s, free, d = best[0]
            if s >= 3:
                return (self.run(d, cells) if free else self.run(d, cells[1:], cells[0])) or Cell(None)
        raise Give('operator%s of %s' % (o, v.c['q'] if isinstance(v, Obj) else 'a value'))

    def pick_method(self, obj, name, cells, cands=None):
        ms = cands or self.C.method(obj.c, name)
        if not ms: return None
        ms = [d for d in ms if arity_ok(d, len(cells))]
        if not ms: return None
        # const and non-const twins: same parameter lists
        if len(ms) == 2 and [p[3] for p in ms[0]['params']] == [p[3] for p in ms[1]['params']] and bool(ms[0].get('const')) != bool(ms[1].get('const')):
            return next(d for d in ms if d.get('const'))
        if len(ms) == 1: return ms[0]
        return self.pick(ms, cells)

    def method(self, cell, name, cells, cands=None):
        o = cell.v
        if isinstance(o, Ptr): cell = o.cell; o = cell.v
        if isinstance(o, Obj):
            d = self.pick_method(o, name, cells, cands)
            if d is None: raise Give('%s::%s' % (o.c['q'], name))
            if d.get('static'): return self.run(d, cells)
            return self.run(d, cells, cell)
        return self.opaque_method(o, name, cells)

    def opaque_method(self, o, name, cells):
        if name in ('swap', 'assign', 'reset', 'clear', 'push_back', 'pop_back', 'fill', 'operator=', 'advance'): raise Give('%s of a value' % name)
        if isinstance(o, Lin):
            if not cells:
                if name in ('begin', 'cbegin', 'data', 'c_array', 'get_internal'): return Cell(o)
                if name in ('end', 'cend'): return Cell(o + at(('size', o.key())))
                if name == 'size': return Cell(at(('size', o.key())))
                if name == 'empty': return Cell(self.facts.eq0(at(('size', o.key()))))
                if name == 'front': return self.deref(o)
                if name == 'back': return self.deref(o + at(('size', o.key())) - num(1))
                if name == 'get': return Cell(o)
                if name == 'index':
                    ps = [m for m, c in o.t.items() if len(m) == 1 and m[0][0] == 'pos' and c == 1]
                    if len(ps) == 1: return Cell(o - Lin({ps[0]: 1}))
                if name in ('rbegin', 'crbegin', 'rend', 'crend'):
                    r = self.C.rec('sprout::reverse_iterator')
                    if r is not None and len(r['fields']) == 1:
                        return Cell(Obj(r, {r['fields'][0][0]: Cell(o if name.endswith('rend') else o + at(('size', o.key())))}))
                if name == 'operator->': return Cell(o)
            if len(cells) == 1:
                v = self.load(cells[0].v)
                if isinstance(v, (Lin, bool)):
                    if name in ('nth',): return Cell(o + self.lin(v))
                    if name in ('operator[]',): return self.deref(o + self.lin(v))
                    if name == 'at':
                        if self.facts.ge0(self.lin(v) - at(('size', o.key()))): raise Thrown()
                        return self.deref(o + self.lin(v))
                    if name == 'index_of': return Cell(self.lin(v) - o)
            return Cell(at(('m', name, o.key()) + tuple(self.key(self.load(c.v)) for c in cells)))
        raise Give('method %s of a value' % name)

    def apply(self, f, cs):
        v = self.load(f.v)
        if isinstance(v, Obj): return self.method(f, 'operator()', cs)
        a = v.atom() if isinstance(v, Lin) else None
        if a is not None and a[0] == 'new' and len(a) == 2:
            o = FUNOBJ.get(bare(a[1]).split('::')[-1])
            if o and len(cs) == 2 and bare(a[1]).startswith('sprout::'):
                if any(isinstance(c.v, Obj) for c in cs): return self.operator(o, cs)
                return Cell(self.arith(o, self.load(cs[0].v), self.load(cs[1].v)))
        return Cell(at(('apply', self.key(v)) + tuple(self.key(self.load(c.v)) for c in cs)))

    def named(self, q, targs, cands, cells, adl=False, fr=None):
        n = len(cells)
        v = [self.load(c.v) for c in cells]
        if q in FORWARD and n == 1: return cells[0]
        if q in ADDR and n == 1: return Cell(self.addr(cells[0]))
        short = q.split('::')[-1]
        if q in SWAP and n == 2:
            a, b = cells
            if isinstance(a.v, Obj) and isinstance(b.v, Obj) and q == 'swap' and False: pass
            a.v, b.v = copyv(b.v), copyv(a.v)
            return None
        if short in ('next', 'prev', 'iterator_next', 'iterator_prev') and (q in NEXT or q in PREV) and n in (1, 2):
            k = self.lin(v[1]) if n == 2 else num(1)
            if q in PREV: k = k.neg()
            return Cell(self.step(v[0], k))
        if q in DIST and n == 2:
            if isinstance(v[0], Lin) and isinstance(v[1], Lin): return Cell(v[1] - v[0])
            return self.operator('-', [cells[1], cells[0]])
        if short in ('iterator_distance',) and n == 2 and isinstance(v[0], Lin): return Cell(v[1] - v[0])
        if n == 1 and isinstance(v[0], (Lin, Ptr)) and (q in BEGIN or q in END or q in SIZE):
            o = self.lin(v[0])
            s = at(('size', o.key()))
            return Cell(o if q in BEGIN else o + s if q in END else s)
        if n == 1 and q == 'sprout::empty' and isinstance(v[0], Lin): return Cell(self.facts.eq0(at(('size', v[0].key()))))
        if n == 1 and isinstance(v[0], Obj) and (q in BEGIN or q in END or q in SIZE):
            return self.method(cells[0], short, [])
        if (q in MIN or q in MAX) and n == 2 and isinstance(v[0], Lin) and isinstance(v[1], Lin):
            g = self.facts.ge0(v[1] - v[0]) if q in MIN else self.facts.ge0(v[0] - v[1])
            return cells[0] if g else cells[1]
        ok = [d for d in cands if d['t'] == 'fn' and arity_ok(d, n)]
        if adl: ok = ok + [d for d in self.C.free.get(short, []) if d not in ok and arity_ok(d, n) and any(clsname(p[3]) for p in d['params'])]
        objs = any(isinstance(x, Obj) for x in v)
        d = None
        if ok:
            d = self.pick(ok, cells) if len(ok) > 1 else (ok[0] if self.fits(ok[0], cells) is not None else None)
        if d is not None and 'body' in d:
            save = self.n
            try:
                return self.run(d, cells)
            except Give:
                if any(isinstance(c.v, Obj) for c in cells): raise
                self.n = save
        for f in [d] if d is not None else ok:
            for p, c in zip(f['params'], cells):
                t = p[3].strip()
                if t.endswith('&') and not t.endswith('&&') and not t.startswith('const ') and 'const &' not in t and not p[5]: raise Give('%s may change its argument' % q)
        return Cell(at(('call', q, targs) + tuple(self.key(x) for x in v)))

    def step(self, v, k):
        if isinstance(v, Obj):
            return self.operator('+', [Cell(copyv(v)), Cell(k)]).v
        return self.lin(v) + k

    # ---- construction
    def construct_type(self, cty, cells, fr, id=None):
        k = clsname(cty)
        t = cty.strip()
        vals = [self.load(c.v) for c in cells]
        n = dim(cty)
        if n:
            if not cells: return Obj(ARR, {str(i): Cell(num(0)) for i in range(n)})
            if len(cells) == 1 and isinstance(vals[0], Obj) and vals[0].c is ARR: return copyv(vals[0])
            if len(cells) == n: return Obj(ARR, {str(i): Cell(copyv(vals[i])) for i in range(n)})
            raise Give('array')
        if k in self.positions and len(cells) == 2:
            c = cells[0]
            if isinstance(c.v, Ptr): c = c.v.cell
            if isinstance(c.v, Obj):
                self.cells[id_(c)] = c
                return at(('pos', id_(c))) + self.lin(vals[1])
            return self.lin(c.v) + self.lin(vals[1])
        if k in self.ptrpos and len(cells) == 2:
            return self.lin(vals[0]) + self.lin(vals[1])
        if k is not None and k in self.C.recs:
            rec = self.C.rec(k, fr.f if fr else None)
            if rec is None:
                return self.opaque_new(t, vals)
            if len(cells) == 1 and isinstance(vals[0], Obj) and bare(vals[0].c['q']) == k:
                return self.copyctor(rec, cells[0])
            if len(cells) == 1 and isinstance(vals[0], Lin) and k in self.positions + self.ptrpos: return vals[0]
            return self.construct(rec, cells, id)
        if len(cells) == 1:
            if t in ('bool', 'const bool'): return self.truth(vals[0])
            return copyv(vals[0])
        if not cells:
            if INTEGRAL.match(t): return num(0)
            if t == 'bool': return False
            return at(('new', re.sub(r'\s', '', t)))
        return self.opaque_new(t, vals)

    def opaque_new(self, t, vals):
        return at(('new', bare(t)) + tuple(self.key(x) for x in vals))

    def copyctor(self, rec, cell):
        cs = [d for d in self.C.ctors(rec) if len(d['params']) == 1 and (clsname(d['params'][0][3]) == bare(rec['q'])) and 'type-parameter-1' not in d['params'][0][3]
              and not d['params'][0][3].endswith('&&')]
        cs = [d for d in cs if d.get('inits') and not d.get('defaulted') and 'body' in d]
        if len(cs) == 1:
            return self.construct(rec, [cell], cs[0]['id'])
        return copyv(cell.v)

    def construct(self, rec, cells, id=None):
        cs = self.C.ctors(rec)
        d = self.U.byid.get(id) if id else None
        if d is None or d['t'] != 'fn':
            cs1 = [c for c in cs if not (len(cells) == 1 and isinstance(cells[0].v, Obj) is False and clsname(c['params'][0][3] if c['params'] else '') == bare(rec['q']))]
            d = self.pick(cs1, cells, many=True)
            if isinstance(d, list):
                # constructors for copies and for moves: the objects they make do not differ
                os = [self.construct(rec, cells, x['id']) for x in d]
                if all(self.key(o) == self.key(os[0]) for o in os): return os[0]
                raise Give('several overloads of %s suit' % d[0]['q'])
        if d is None:
            fs = rec['fields']
            if not [c for c in cs if not c.get('defaulted') and not c.get('deleted')] and not rec.get('bases') and len(cells) <= len(fs):
                o = Obj(rec, {})
                for i, x in enumerate(fs):
                    o.f[x[0]] = Cell(copyv(cells[i].v) if i < len(cells) else self.construct_type(x[3], [], None))
                return o
            raise Give('constructor of %s with %d arguments' % (rec['q'], len(cells)))
        if d.get('defaulted') and not d.get('inits'):
            if not cells:
                o = Obj(rec, {})
                for r in self.C.bases(rec):
                    for x in r['fields']: o.f[x[0]] = Cell(self.construct_type(x[3], [], None))
                return o
            return copyv(cells[0].v)
        if self.depth > 24: raise Give('deep recursion in ' + d['q'])
        o = Obj(rec, {})
        this = Cell(o)
        env = {}
        self.bind(d, cells, env, this)
        fr = Frame(env, this, d)
        ft = {x[0]: x[3] for r in self.C.bases(rec) for x in r['fields']}
        self.depth += 1
        try:
            for i in d.get('inits', ()):
                if i[0] == 'm':
                    if i[1] not in ft: raise Give('member ' + i[1])
                    o.f[i[1]] = self.initialise(ft[i[1]], i[3], fr)
                elif i[0] == 'd':
                    x = i[3]
                    if x[0] not in ('plist', 'ctor', 'ilist'): raise Give('delegating constructor')
                    xs = self.args(x[1] if x[0] == 'plist' else x[4] if x[0] == 'ctor' else x[2], fr)
                    b = self.construct(rec, xs, x[3] if x[0] == 'ctor' else None)
                    o.f.update(b.f)
                elif i[0] == 'b':
                    self.baseinit(o, rec, i, fr)
            for n, t in ft.items():
                if n not in o.f: o.f[n] = Cell(at(('uninit', n)))
            if d.get('body'):
                self.stmt(d['body'], fr)
        finally:
            self.depth -= 1
        return o

    def baseinit(self, o, rec, i, fr):
        k = clsname(i[2] if len(i[2]) else i[1]) if isinstance(i[2], str) else clsname(i[1])
        bs = [b for b in self.C.bases(rec)[1:] if bare(b['q']) == k]
        x = i[3]
        if not bs:
            if rec.get('bases') and not self.C.openbase(rec): return
            if isinstance(x, list) and x[0] in ('plist', 'ctor') and not (x[1] if x[0] == 'plist' else x[4]): return
            raise Give('base class ' + str(i[1]))
        xs = x[1] if x[0] == 'plist' else x[4] if x[0] == 'ctor' else x[2] if x[0] == 'ilist' else None
        if xs is None: raise Give('base initialiser')
        cells = self.args(xs, fr)
        if not cells and not any(r['fields'] for r in self.C.bases(bs[0])) and not self.C.ctors(bs[0]): return
        if len(cells) == 1 and isinstance(cells[0].v, Obj):
            src = cells[0].v
            names = [y[0] for r in self.C.bases(bs[0]) for y in r['fields']]
            if all(n in src.f for n in names):
                for n in names: o.f[n] = Cell(copyv(src.f[n].v))
                return
        b = self.construct(bs[0], cells, x[3] if x[0] == 'ctor' else None)
        o.f.update(b.f)

    def initialise(self, cty, e, fr):
        n = dim(cty)
        if n:
            if e is None: return Cell(Obj(ARR, {str(i): Cell(at(('uninit', cty))) for i in range(n)}))
            x = e
            while x[0] in ('ilist', 'plist'):
                y = x[2] if x[0] == 'ilist' else x[1]
                if len(y) == 1 and y[0][0] in ('ilist', 'plist'): x = y[0]; continue
                if x[0] == 'plist' and len(y) == 1 or len(y) == 1 and n > 1:
                    v = self.ev(y[0], fr)
                    if isinstance(v, Obj) and v.c is ARR: return Cell(copyv(v))
                    if x[0] == 'plist': raise Give('array from ' + show(v))
                if len(y) > n or any(z[0] == 'pack' for z in y): raise Give('array initialiser')
                vs = [self.ev(z, fr) for z in y]
                return Cell(Obj(ARR, {str(i): Cell(copyv(vs[i]) if i < len(vs) else num(0)) for i in range(n)}))
            if x[0] == 'valinit': return Cell(Obj(ARR, {str(i): Cell(num(0)) for i in range(n)}))
            v = self.ev(e, fr)
            if isinstance(v, Obj) and v.c is ARR: return Cell(copyv(v))
            raise Give('array initialiser')
        if cty.rstrip().endswith('&'):
            if e[0] in ('plist',) and len(e[1]) == 1: return self.lv(e[1][0], fr)
            if e[0] == 'ilist' and len(e[2]) == 1: return self.lv(e[2][0], fr)
            return self.lv(e, fr)
        if e[0] == 'plist' or (e[0] == 'ilist' and not cty.rstrip().endswith(']')):
            return Cell(self.construct_type(cty, self.args(e[1] if e[0] == 'plist' else e[2], fr), fr))
        if e[0] == 'valinit': return Cell(self.construct_type(cty, [], fr))
        if cty.rstrip().endswith(']'):
            if e[0] == 'ilist': return Cell(at(('arr',) + tuple(self.key(self.ev(x, fr)) for x in e[2])))
            raise Give('array initialiser')
        c = self.lv(e, fr)
        v = self.load(c.v)
        k = clsname(cty)
        if k in self.C.recs and not isinstance(v, Obj):
            return Cell(self.construct_type(cty, [c], fr))
        if isinstance(v, Obj) and (k is None or k == bare(v.c['q'])): return Cell(copyv(v))
        if isinstance(v, Obj): return Cell(self.construct_type(cty, [c], fr))
        if cty.strip() in ('bool', 'const bool') and not isinstance(v, bool): v = self.truth(v)
        return Cell(copyv(v))

    # ---- statements: None: fell through; (Cell|None,): returned
    def stmt(self, s, fr):
        self.tick()
        if s is None: return None
        t = s[0]
        if t == 'block':
            for x in s[1]:
                r = self.stmt(x, fr)
                if r is not None: return r
            return None
        if t == 'ret':
            if s[1] is None: return (None,)
            ret = (fr.f.get('cret') or '') if fr.f else ''
            if s[1][0] in ('ilist', 'plist') and not ret.endswith('&'):
                return (self.initialise(ret, s[1], fr),)
            return (self.lv(s[1], fr),)
        if t == 'expr':
            v = self.ev(s[1], fr, void=True)
            if isinstance(v, Lin) and s[1][0] == 'call':
                a = v.atom()
                if a is not None and a[0] in ('call', 'm', 'ds', 'apply'): raise Give('what %s does' % str(a[2] if a[0] == 'ds' else a[1]))
            return None
        if t == 'decl':
            for d in s[1]:
                if len(d) > 5 and d[5]: raise Give('static local')
                if d[4] is None:
                    fr.env[('L', d[0])] = Cell(at(('uninit', d[1]))); continue
                if 'auto' in d[3] or d[3].rstrip().endswith('&'):
                    c = self.lv(d[4], fr)
                    fr.env[('L', d[0])] = c if d[3].rstrip().endswith('&') else Cell(copyv(self.load(c.v)))
                else:
                    fr.env[('L', d[0])] = self.initialise(d[3], d[4], fr)
            return None
        if t == 'if':
            return self.stmt(s[2] if self.truth(self.ev(s[1], fr)) else s[3], fr)
        if t == 'nop': return None
        if t in ('while', 'for'):
            if t == 'for':
                if s[1] is not None: self.stmt(s[1] if s[1][0] in ('decl', 'expr', 'block') else ['expr', s[1]], fr)
                c, inc, b = s[2], s[3], s[4]
            else: c, inc, b = s[1], None, s[2]
            for _ in range(8):
                if c is not None and not self.truth(self.ev(c, fr)): return None
                r = self.stmt(b, fr)
                if r is not None: return r
                if inc is not None: self.ev(inc, fr, void=True)
            raise Give('loop')
        raise Give('statement ' + str(t))

    def tick(self):
        self.n += 1
        if self.n > self.maxnodes: raise Give('too big')

    # ---- expressions
    def args(self, xs, fr):
        r = []
        for x in xs:
            if x[0] == 'pack': raise Give('pack expansion')
            r.append(self.lv(x, fr))
        return r

    def ev(self, e, fr, void=False):
        c = self.lv(e, fr, void)
        return None if c is None else self.load(c.v)

    def field(self, cell, name, e=None):
        v = cell.v
        if isinstance(v, Obj):
            if name in v.f:
                c = v.f[name]
                return c
            s = self.C.static(v.c, name)
            if s is not None: return Cell(s)
            raise Give('no member %s' % name)
        if isinstance(v, Lin):
            return Cell(at(('m.', name, v.key())))
        raise Give('member of a value')

    def lv(self, e, fr, void=False):
        self.tick()
        k = e[0]
        if k == 'parm':
            c = fr.env.get(('P', e[1]))
            if c is None: raise Give('parameter ' + e[2])
            return c
        if k == 'local':
            c = fr.env.get(('L', e[1]))
            if c is None: raise Give('local ' + e[2])
            return c
        if k == 'this':
            if fr.this is None: raise Give('this')
            return Cell(Ptr(fr.this))
        if k in ('member', 'dmember', 'umember'):
            if e[1][0] == 'this':
                b = fr.this
                if b is None: raise Give('this')
            else:
                b = self.lv(e[1], fr)
                if e[3]:
                    v = self.load(b.v)
                    if isinstance(v, Ptr): b = v.cell
                    elif isinstance(v, Obj):
                        b = self.method(b, 'operator->', [])
                        if isinstance(b.v, Ptr): b = b.v.cell
                        else: b = self.deref(b.v)
                    else: b = self.deref(v)
            d = self.U.byid.get(e[4]) if k == 'member' else None
            if d is not None and d['t'] == 'var': return Cell(self.constval(d))
            return self.field(b, e[2])
        if k == 'int': return Cell(num(int(e[1])))
        if k == 'bool': return Cell(bool(e[1]))
        if k in ('float', 'str'): return Cell(at(('lit', k, str(e[1]))))
        if k == 'char': return Cell(num(int(e[1])))
        if k == 'null': return Cell(num(0))
        if k == 'enumc': return Cell(num(int(e[3])))
        if k == 'nttp': return Cell(self.tp(e[2]))
        if k == 'var':
            d = self.U.byid.get(e[1])
            if d is not None and d.get('t') == 'var': return Cell(self.constval(d))
            return Cell(at(('var', e[2])))
        if k in ('func', 'lookup'):
            return Cell(at(('fn', e[2] if k == 'func' else strip(e[1]))))
        if k == 'icast':
            c = self.lv(e[3], fr)
            if e[1] in ('IntegralToBoolean', 'PointerToBoolean'): return Cell(self.truth(c.v))
            if e[1] in ('IntegralToFloating', 'FloatingToIntegral'): return Cell(at(('cast', e[2], self.key(self.load(c.v)))))
            return c
        if k == 'cast': return self.cast(e, fr)
        if k == 'defarg': return self.lv(e[1], fr)
        if k == 'cond':
            return self.lv(e[2] if self.truth(self.ev(e[1], fr)) else e[3], fr)
        if k == 'bin': return self.binary(e[1], e[2], e[3], fr)
        if k == 'un': return self.unary(e[1], e[2], fr)
        if k == 'opcall':
            o, xs = e[1], e[3]
            if o == '()':
                f = self.lv(xs[0], fr)
                cs = self.args(xs[1:], fr)
                return self.apply(f, cs)
            if o == '[]':
                a = self.lv(xs[0], fr)
                return self.index(a, self.ev(xs[1], fr))
            if o in ('++', '--'):
                return self.unary(('post' if len(xs) == 2 else '') + o, xs[0], fr)
            if len(xs) == 1: return self.unary(o, xs[0], fr)
            return self.binary(o, xs[0], xs[1], fr)
        if k == 'index':
            a = self.lv(e[1], fr)
            b = self.lv(e[2], fr)
            if isinstance(b.v, Obj) and not isinstance(a.v, Obj): a, b = b, a       # the front end gives the subscript of a dependent type in either order
            return self.index(a, self.load(b.v))
        if k == 'call': return self.call(e, fr, void)
        if k == 'mcall':
            c = e[1]
            if not isinstance(c, list) or c[0] != 'member': raise Give('member pointer call')
            return self.mcall(c, e[3], fr, [e[2]])
        if k == 'uctor':
            xs = e[3]
            if len(xs) == 1 and xs[0][0] == 'ilist' and xs[0][1] == 'void': xs = xs[0][2]
            return Cell(self.construct_type(e[2], self.args(xs, fr), fr))
        if k == 'ctor':
            cs = self.args(e[4], fr)
            if e[7] and len(cs) == 1: 
                v = self.load(cs[0].v)
                if not isinstance(v, Obj): return Cell(v)
            return Cell(self.construct_type(e[2], cs, fr, e[3]))
        if k == 'valinit': return Cell(self.construct_type(e[1], [], fr))
        if k == 'ilist':
            if e[1] in ('void', ''): raise Give('initializer list')
            return Cell(self.construct_type(e[1], self.args(e[2], fr), fr))
        if k == 'plist':
            if len(e[1]) == 1: return self.lv(e[1][0], fr)
            raise Give('list')
        if k == 'dsref': return Cell(at(('ds', strip(e[1]), e[2], e[3])))
        if k == 'throw': raise Thrown()
        if k == 'sizeofpack': return Cell(self.tp('sizeof...' + e[1]))
        if k == 'sizeof': return Cell(self.tp('sizeof ' + e[1]))
        if k == 'noexceptop': return Cell(at(('noexcept',)))
        raise Give('expression ' + k + (' ' + str(e[1]) if k == '?' else ''))

    def tp(self, name):
        return at(('tp', name))

    def constval(self, d):
        x = d.get('init')
        while isinstance(x, list) and x and x[0] == 'icast': x = x[3]
        if isinstance(x, list) and x and x[0] == 'int': return num(int(x[1]))
        return at(('var', d['q']))

    def cast(self, e, fr):
        if e[5] == 'ToVoid' or e[3] == 'void':
            self.lv(e[4], fr, void=True)
            return Cell(None)
        t = e[3].strip()
        if e[4] is not None and e[4][0] in ('plist', 'ilist') and e[1] == 'func':
            return Cell(self.construct_type(t, self.args(e[4][1] if e[4][0] == 'plist' else e[4][2], fr), fr))
        c = self.lv(e[4], fr)
        v = self.load(c.v)
        ref = t.endswith('&') or isinstance(e[2], str) and e[2].rstrip().endswith('&')
        if ref or isinstance(v, Obj):
            k = clsname(t)
            if isinstance(v, Obj) and k in self.C.recs and k != bare(v.c['q']) and not ref:
                return Cell(self.construct_type(t, [c], fr))
            return c
        if t == 'bool': return Cell(self.truth(v))
        if clsname(t) in self.C.recs: return Cell(self.construct_type(t, [c], fr))
        if INTEGRAL.match(t) or t.endswith('*') or isinstance(v, Ptr): return Cell(v)
        if isinstance(v, Lin) and v.const() is None: return Cell(v)
        return Cell(at(('cast', t, self.key(v))))

    def call(self, e, fr, void=False):
        c, xs = e[1], e[2]
        t = c[0]
        if t == 'func':
            d = self.U.byid.get(c[1])
            return self.named(c[2], c[3], [d] if d else [], self.args(xs, fr), fr=fr)
        if t == 'lookup':
            return self.named(strip(c[1]), c[4] if len(c) > 4 else '', [self.U.byid[i] for i in c[2] if i in self.U.byid], self.args(xs, fr), adl=bool(c[3]), fr=fr)
        if t == 'dsref':
            return self.dependent(c[1], c[2], c[3], self.args(xs, fr))
        if t in ('member', 'dmember', 'umember'):
            cand = [c[4]] if t == 'member' else c[4] if t == 'umember' else None
            return self.mcall(c, xs, fr, cand)
        f = self.lv(c, fr)
        cs = self.args(xs, fr)
        return self.apply(f, cs)

    def dependent(self, q, name, targs, cells):
        """a static member function of a class that depends on the template parameters; those of a holder's helper keep the value, or its address"""
        if q == 'helper_type::' and len(cells) == 1:
            if name in ('hold', 'ref'): return cells[0]
            if name == 'ptr': return Cell(self.addr(cells[0]))
        if not cells and name in self.known: return Cell(self.known[name])
        return Cell(at(('ds', strip(q), name, targs) + tuple(self.key(self.load(a.v)) for a in cells)))

    def mcall(self, c, xs, fr, cand):
        ds = [self.U.byid[i] for i in cand if i in self.U.byid] if cand else None
        if ds and any(d['t'] != 'fn' for d in ds): ds = None
        if c[1][0] == 'this': b = fr.this
        else:
            b = self.lv(c[1], fr)
            if c[3]:
                v = self.load(b.v)
                if isinstance(v, Ptr): b = v.cell
                elif isinstance(v, Obj): raise Give('arrow')
                else: b = self.deref(v)
        cells = self.args(xs, fr)
        if c[0] == 'dmember' and c[1][0] == 'this' and len(c) > 5 and c[5]:
            # base::f(...) of a base that depends on the template parameters
            o = fr.this.v if fr.this is not None else None
            if isinstance(o, Obj):
                ms = [m for r in self.C.bases(o.c)[1:] for m in self.C.meth.get(r['id'], {}).get(c[2], ()) if 'body' in m and arity_ok(m, len(cells))]
                if len(ms) == 1: return self.run(ms[0], cells, fr.this)
            return self.dependent(c[5], c[2], c[4], cells)
        if b is not None and isinstance(b.v, Obj) and c[2] in b.v.f: return self.apply(b.v.f[c[2]], cells)
        if ds and all(d.get('static') for d in ds):
            d = self.pick(ds, cells) if len(ds) > 1 else ds[0]
            if d is None: raise Give('static ' + c[2])
            return self.run(d, cells)
        if b is None: raise Give('this')
        return self.method(b, c[2], cells, ds)

    def unary(self, o, x, fr):
        if o == '*' and x[0] == 'this': return fr.this
        c = self.lv(x, fr)
        v = self.load(c.v)
        if o == '*':
            if isinstance(v, Obj): return self.operator('*', [c])
            return self.deref(v)
        if o == '&': return Cell(self.addr(c))
        if o == '!':
            if isinstance(v, Obj): return self.operator('!', [c])
            return Cell(not self.truth(v))
        if isinstance(v, Obj):
            if o in ('post++', 'post--'): return self.operator(o[4:], [c, Cell(num(0))])
            return self.operator(o, [c])
        if o in ('++', '--'):
            c.v = self.lin(v) + num(1 if o == '++' else -1)
            return c
        if o in ('post++', 'post--'):
            c.v = self.lin(v) + num(1 if o == 'post++' else -1)
            return Cell(v)
        if o == '-': return Cell(self.lin(v).neg())
        if o == '+': return Cell(v)
        if o == '~': return Cell(self.lin(v).neg() - num(1)) if self.lin(v).const() is not None else Cell(at(('op', '~', self.key(v))))
        raise Give('operator ' + o)

    def binary(self, o, x, y, fr):
        if o == ',':
            self.ev(x, fr, void=True)
            return self.lv(y, fr)
        if o in ('&&', '||'):
            a = self.truth(self.ev(x, fr))
            if a == (o == '||'): return Cell(a)
            return Cell(self.truth(self.ev(y, fr)))
        if o == '=':
            l = self.lv(x, fr)
            r = self.lv(y, fr)
            if isinstance(l.v, Obj):
                ms = self.C.method(l.v.c, 'operator=')
                if isinstance(r.v, Obj) and bare(r.v.c['q']) == bare(l.v.c['q']):
                    l.v = copyv(r.v); return l
                if ms: return self.operator('=', [l, r])
                raise Give('assignment')
            l.v = copyv(self.load(r.v))
            return l
        l = self.lv(x, fr)
        r = self.lv(y, fr)
        if isinstance(l.v, Obj) or isinstance(r.v, Obj):
            return self.operator(o, [l, r])
        if o.endswith('=') and o not in ('==', '!=', '<=', '>='):
            l.v = self.arith(o[:-1], self.load(l.v), self.load(r.v))
            return l
        return Cell(self.arith(o, self.load(l.v), self.load(r.v)))


def id_(c): return id(c)


class Frame:
    __slots__ = ('env', 'this', 'f')
    def __init__(self, env, this, f): self.env, self.this, self.f = env, this, f


PARAM = re.compile(r'(type-parameter-\d+-\d+|(?!(true|false|void|bool|char|int|long|short|unsigned|signed|float|double)$)[A-Za-z_]\w*)$')


def targs(ty):
    """the template arguments of the class a type names"""
    i = ty.find('<')
    if i < 0: return []
    out, d, j = [], 0, i + 1
    for x in range(i + 1, len(ty)):
        c = ty[x]
        if c in '<(': d += 1
        elif c in '>)':
            if d == 0: out.append(ty[j:x].strip()); break
            d -= 1
        elif c == ',' and d == 0:
            out.append(ty[j:x].strip()); j = x + 1
    return out


class Index:
    """classes of a unit with their members"""
    def __init__(self, U):
        self.U = U
        self.recs = {}
        for r in U.recs:
            if 'fields' in r and r.get('spec') != 'inst': self.recs.setdefault(bare(r['q']), []).append(r)
        self.byid = {r['id']: r for r in U.recs}
        self.meth = {}
        self.free = {}
        for f in U.fns:
            if f.get('inst'): continue
            if f.get('cls') is not None:
                self.meth.setdefault(f['cls'], {}).setdefault('<ctor>' if f['kind'] == 'ctor' else f['name'], []).append(f)
            elif f['kind'] == 'fn':
                self.free.setdefault(f['name'], []).append(f)
        self.memo = {}

    def rec(self, k, f=None):
        rs = self.recs.get(k)
        if not rs: return None
        if len(rs) == 1: return rs[0]
        if f is not None and f.get('cls') is not None:
            for r in rs:
                if r['id'] == f['cls']: return r
        p = [r for r in rs if not r.get('spec')]
        if len(p) == 1 and False: return p[0]
        return None

    def suits(self, ty, rec):
        """whether an object of this specialisation can be what a parameter of type ty takes"""
        rs = self.recs.get(bare(rec['q']), ())
        if len(rs) < 2 or clsname(ty) != bare(rec['q']): return True
        a = targs(ty)
        def score(r):
            n = 0
            for x, y in zip(a, r.get('targs') or ()):
                if PARAM.match(x) or PARAM.match(y): continue
                n += 1 if x == y else -9
            return n
        m = max(score(r) for r in rs)
        return score(rec) == m

    def bases(self, rec):
        """the class and those bases that are classes of the library (primary template unique)"""
        k = rec['id']
        if k in self.memo: return self.memo[k]
        out = [rec]
        self.memo[k] = out
        for b in rec.get('bases', ()):
            n = clsname(b[1])
            r = self.rec(n) if n else None
            if r is not None and r is not rec: out += [x for x in self.bases(r) if x not in out]
        return out

    def openbase(self, rec):
        return any(clsname(b[1]) is None or self.rec(clsname(b[1])) is None for b in rec.get('bases', ()))

    def method(self, rec, name):
        for r in self.bases(rec):
            ms = self.meth.get(r['id'], {}).get(name)
            if ms: return ms
        return []

    def ctors(self, rec):
        return self.meth.get(rec['id'], {}).get('<ctor>', [])

    def static(self, rec, name):
        for v in self.U.vars:
            if v.get('cls') in [r['id'] for r in self.bases(rec)] and v['name'] == name:
                return at(('var', v['q']))
        return None


# ---- comparison of results
FREE = False        # whether members of fields count as free (no relation holds between the fields of the class)
OPAQUE = {'call', 'm', 'op', 'ds', 'apply', 'new', 'cast', 'm.', 'default', 'uninit', 'lit', 'arr', 'obj', 'noexcept', 'fn', 'addr', 'ptr'}


def held(v):
    """a holder of one value stands for the value"""
    return v.f['holder_'].v if isinstance(v, Obj) and list(v.f) == ['holder_'] else v


def same(I, a, b):
    a, b = held(a), held(b)
    """'eq', 'ne' (differ for certain values of the atoms) or 'unk'"""
    a, b = I.load(a), I.load(b)
    if a is None or b is None:
        return 'eq' if a is b else 'unk'
    if isinstance(a, Obj) or isinstance(b, Obj):
        if not (isinstance(a, Obj) and isinstance(b, Obj)) or bare(a.c['q']) != bare(b.c['q']): return 'unk'
        r = 'eq'
        for n in a.f:
            if n not in b.f: return 'unk'
            s = same(I, a.f[n].v, b.f[n].v)
            if s == 'ne': return 'ne'
            if s == 'unk': r = 'unk'
        return r
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return 'eq' if a.cell is b.cell else same(I, a.cell.v, b.cell.v) if not isinstance(a.cell.v, Obj) else 'unk'
    if isinstance(a, Ptr) or isinstance(b, Ptr): return 'unk'
    return samelin(I, I.lin(a), I.lin(b))


def samelin(I, a, b):
    d = a - b
    k = I.facts.fixed(d)
    if k is not None: return 'eq' if k == 0 else 'ne'
    pos = [(m, c) for m, c in d.t.items() if m != ()]
    atoms = [x for m, _ in pos for x in m]
    if not any(deep_opaque(x) for x in atoms):
        return 'ne'
    if len(pos) == 2 and () not in d.t and pos[0][1] == -pos[1][1] and len(pos[0][0]) == len(pos[1][0]) == 1:
        return sameatom(I, pos[0][0][0], pos[1][0][0])
    return 'unk'


def sameatom(I, x, y):
    if x == y: return 'eq'
    if x[0] != y[0] or len(x) != len(y): return 'unk'
    r = 'eq'
    for p, q in zip(x[1:], y[1:]):
        if p == q: continue
        if isinstance(p, tuple) and isinstance(q, tuple) and p and q and p[0] == 'lin' and q[0] == 'lin':
            s = samelin(I, Lin(dict(p[1:])), Lin(dict(q[1:])))
            if s == 'unk': return 'unk'
            if s == 'ne': r = 'ne'
        else: return 'unk'
    return r


def deep_opaque(a):
    if not isinstance(a, tuple) or not a: return False
    if a[0] == 'm.' and FREE:        # a member of a field of unknown type varies as freely as the field
        L = Lin(dict(a[2][1:])) if a[2] and a[2][0] == 'lin' else None
        return L is None or not (L.atom() and (L.atom()[0] == 'f' or L.atom()[0] == 'm.' and not deep_opaque(L.atom())))
    if a[0] in OPAQUE: return True
    if a[0] == 'deref' or a[0] == 'size':
        L = Lin(dict(a[1][1:])) if a[1][0] == 'lin' else None
        if L is None: return True
        return any(deep_opaque(x) for m in L.t for x in m)
    return False


# ---- showing
def showatom(a):
    if not isinstance(a, tuple): return str(a)
    k = a[0]
    if k in ('f', 'bool', 'p', 'tp', 'var', 'fn'): return str(a[1])
    if k == 'deref': return '*(%s)' % showkey(a[1])
    if k == 'size': return 'size(%s)' % showkey(a[1])
    if k == 'addr': return '&(%s)' % showkey(a[1])
    if k == 'call': return '%s(%s)' % (a[1], ', '.join(map(showkey, a[3:])))
    if k == 'm': return '%s.%s(%s)' % (showkey(a[2]), a[1], ', '.join(map(showkey, a[3:])))
    if k == 'op': return '(%s)' % ((' %s ' % a[1]).join(map(showkey, a[2:])))
    if k == 'pos': return 'begin'
    return '%s(%s)' % (k, ', '.join(map(showkey, a[1:])))


def showkey(k):
    if isinstance(k, tuple) and k and k[0] == 'lin': return showlin(Lin(dict(k[1:])))
    if isinstance(k, tuple) and k and k[0] == 'obj': return '%s{%s}' % (k[1], ', '.join('%s=%s' % (n, showkey(v)) for n, v in k[2]))
    return showatom(k) if isinstance(k, tuple) else str(k)


def showlin(L):
    if not L.t: return '0'
    r = []
    for m, c in sorted(L.t.items(), key=lambda x: (x[0] == (), repr(x[0]))):
        s = '*'.join(showatom(x) for x in m)
        r.append(('%d' % c) if not m else s if c == 1 else '-' + s if c == -1 else '%d*%s' % (c, s))
    return ' + '.join(r).replace('+ -', '- ')


def show(v, lim=220):
    if v is None: s = 'nothing'
    elif isinstance(v, bool): s = str(v).lower()
    elif isinstance(v, Lin): s = showlin(v)
    elif isinstance(v, Ptr): s = '&object'
    elif isinstance(v, Obj): s = '{%s}' % ', '.join('%s=%s' % (n, show(c.v)) for n, c in v.f.items())
    else: s = repr(v)
    return s if len(s) <= lim else s[:lim] + '...'
