"""C21: the arithmetic of complex numbers, quaternions and rational numbers."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import tu, obj
from ir import loc
from terms import Give
from check import main
from obj import Cell, Obj, Ptr, Thrown, Lin, num, at, show, bare, clsname, Interp, Index, copyv

obj.ARRS = True
Z, Q, R_ = 'sprout::complex', 'sprout::math::quaternion', 'sprout::rational'
SCALAR = re.compile(r'^(const )?(type-parameter-0-\d|float|double|long double)( const)?( ?&)?$|param_type')
OPS = {'+': '+', '-': '-', '*': '*', '/': '/'}


class Alg(Interp):
    """quotients stay quotients: a field's division; a common divisor is a number about which only its arguments are known"""
    inexact = unsure = None

    def div(self, a, b):
        if b.const() == 1: return a
        if b.const() == 0: raise Give('division by zero')
        g = b.atom()
        if g is not None and g[0] == 'gcd':
            r = divides(g, a)
            if r is None: self.unsure = self.unsure or 'division of %s by %s' % (show(a), show(b))
            elif not r: self.inexact = self.inexact or '%s does not divide %s' % (show(b), show(a))
        return at(('frac', a.key(), b.key()))

    def common(self, a, b):
        ks = sorted((a.key(), b.key()), key=repr)
        return at(('gcd', ks[0], ks[1]))

    def operator(self, o, cells):
        if o == '()' and isinstance(cells[0].v, Obj) and bare(cells[0].v.c['q']).endswith('gcd_evaluator') and len(cells) == 3:
            return Cell(self.common(self.lin(cells[1].v), self.lin(cells[2].v)))
        return Interp.operator(self, o, cells)

    def method(self, cell, name, cells, cands=None):
        if name == 'operator()' and isinstance(cell.v, Obj) and bare(cell.v.c['q']).endswith('gcd_evaluator') and len(cells) == 2:
            return Cell(self.common(self.lin(cells[0].v), self.lin(cells[1].v)))
        return Interp.method(self, cell, name, cells, cands)

    def apply(self, f, cs):
        if 'gcd' in show(self.load(f.v)) and len(cs) == 2:
            return Cell(self.common(self.lin(cs[0].v), self.lin(cs[1].v)))
        return Interp.apply(self, f, cs)

    def named(self, q, targs, cands, cells, adl=False, fr=None):
        v = [self.load(c.v) for c in cells]
        s = q.split('::')[-1]
        if s == 'gcd' and len(v) == 2: return Cell(self.common(self.lin(v[0]), self.lin(v[1])))
        if s == 'abs_max' and len(v) == 1: return Cell(at(('call', q, '', self.key(v[0]))))
        if s in ('isnan', 'isinf') and len(v) == 1: return Cell(False)
        if s in ('accumulate', 'sum') and len(v) == 1 and isinstance(v[0], Obj) and v[0].c is obj.ARR:
            r = num(0)
            for c in v[0].f.values(): r = r + self.lin(c.v)
            return Cell(r)
        cands = [d for d in cands if d is not None]
        if q.startswith('sprout::') and not any('body' in d for d in cands):
            # an instance stands for its template
            cands = [d for d in self.C.free.get(s, []) if d['q'] == q and 'body' in d and not d.get('inst')] or cands
        return Interp.named(self, q, targs, cands, cells, adl, fr)

    def cast(self, e, fr):
        t = e[3].strip()
        if SCALAR.search(t) and e[4] is not None and e[4][0] not in ('plist', 'ilist'):
            v = self.load(self.lv(e[4], fr).v)
            if isinstance(v, Lin): return Cell(v)
        return Interp.cast(self, e, fr)

    def dependent(self, q, name, targs, cells):
        k = clsname(q[:-2] if q.endswith('::') else q)
        for r in self.C.recs.get(k, []):
            ms = [m for m in self.C.meth.get(r['id'], {}).get(name, ()) if 'body' in m and m.get('static') and len(m['params']) == len(cells)]
            if len(ms) == 1: return self.run(ms[0], cells)
        return Interp.dependent(self, q, name, targs, cells)

    def primary(self, cty):
        k = clsname(cty)
        rs = self.C.recs.get(k, ()) if k in (Z, Q, R_) else ()
        p = [r for r in rs if not r.get('spec')]
        return p[0] if len(rs) > 1 and len(p) == 1 else None

    def construct_type(self, cty, cells, fr, id=None):
        if not cells and SCALAR.match(cty.strip()): return num(0)
        r = self.primary(cty)
        if r is not None and fr is not None and self.C.rec(clsname(cty), fr.f) is None:
            if len(cells) == 1 and isinstance(self.load(cells[0].v), Obj) and bare(self.load(cells[0].v).c['q']) == clsname(cty): return copyv(self.load(cells[0].v))
            return self.construct(r, cells)
        return Interp.construct_type(self, cty, cells, fr, id)

    def lv(self, e, fr, void=False):
        if e[0] == 'uctor' and obj.dim(e[2]) and len(e[3]) == 1 and e[3][0][0] == 'ilist':
            return self.initialise(e[2], e[3][0], fr)
        if e[0] == 'icast' and e[1] == 'IntegralToFloating': return self.lv(e[3], fr)
        return Interp.lv(self, e, fr, void)

    def binary(self, o, x, y, fr):
        if o == '=':
            l = self.lv(x, fr)
            if isinstance(l.v, Obj) and l.v.c is obj.ARR:
                r = self.load(self.lv(y, fr).v)
                if not (isinstance(r, Obj) and r.c is obj.ARR): raise Give('array assignment')
                l.v = copyv(r)
                return l
        return Interp.binary(self, o, x, y, fr)


def divides(g, a):
    """whether the common divisor g divides the number a whatever the values: True, False, None for unknown"""
    ks = [Lin(dict(k[1:])) for k in g[1:]]
    if any(a.key() == k.key() for k in ks) or all(one(ks, m, c) for m, c in a.t.items()): return True
    if len(a.t) == 1 and all(len(k.t) == 1 for k in ks) and all(x[0] in ('f', 'p') for L in ks + [a] for m in L.t for x in m): return False
    return None


def one(ks, m, c):
    L = Lin({m: c})
    for k in ks:
        if k.key() == L.key() or k.neg().key() == L.key(): return True
        if len(k.t) == 1:
            (n, d), = k.t.items()
            l = list(m)
            ok = bool(n) and c % d == 0
            for x in n:
                if x in l: l.remove(x)
                else: ok = False
            if ok: return True
            if not n and abs(d) == 1: return True
        x = k.atom()
        if x is not None and x[0] == 'gcd' and one([Lin(dict(y[1:])) for y in x[1:]], m, c): return True
    return False


class Frac:
    """quotient of two polynomials"""
    def __init__(self, n, d=num(1)): self.n, self.d = n, d
    def __add__(self, o): return Frac(self.n.mul(o.d) + o.n.mul(self.d), self.d.mul(o.d)) if self.d.key() != o.d.key() else Frac(self.n + o.n, self.d)
    def neg(self): return Frac(self.n.neg(), self.d)
    def __sub__(self, o): return self + o.neg()
    def __mul__(self, o): return Frac(self.n.mul(o.n), self.d.mul(o.d))
    def over(self, o): return Frac(self.n.mul(o.d), self.d.mul(o.n))
    def same(self, o): return not [1 for c in (self.n.mul(o.d) - o.n.mul(self.d)).t.values() if c]


def frac(L):
    """the polynomial over quotients as one quotient"""
    if isinstance(L, bool): L = num(int(L))
    if not isinstance(L, Lin): raise Give('not a number: %s' % show(L))
    r = Frac(num(0))
    for m, c in L.t.items():
        x = Frac(num(c))
        for a in m:
            if a[0] == 'frac': x = x * frac(Lin(dict(a[1][1:]))).over(frac(Lin(dict(a[2][1:]))))
            else: x = x * Frac(at(a))
        r = r + x
    return r


def unkey(k): return Lin(dict(k[1:]))


def opaque(L):
    """whether the number has parts that were not understood"""
    def bad(a):
        if a[0] == 'frac': return any(bad(x) for k in a[1:] for m in unkey(k).t for x in m)
        return a[0] not in ('f', 'p', 'gcd') and not (a[0] == 'call' and a[1].endswith('abs_max'))
    return any(bad(a) for m in L.t for a in m)


H = ((0, 1, 2, 3), (1, 0, 3, 2), (2, 3, 0, 1), (3, 2, 1, 0))


def mul(a, b):
    z = Frac(num(0))
    r = [z, z, z, z]
    sign = {(1, 1): -1, (2, 2): -1, (3, 3): -1, (2, 1): -1, (3, 2): -1, (1, 3): -1}
    for i in range(4):
        for j in range(4):
            t = a[i] * b[j]
            r[H[i][j]] = r[H[i][j]] + (t.neg() if sign.get((i, j)) else t)
    return r


def want(op, a, b):
    if op in '+-': return [x + y if op == '+' else x - y for x, y in zip(a, b)]
    if op == '*': return mul(a, b)
    n = Frac(num(0))
    for x in b: n = n + x * x
    c = [b[0]] + [x.neg() for x in b[1:]]
    return [x.over(n) for x in mul(a, c)]


def known(I, x):
    """with the values the case has fixed"""
    def sub(L):
        r = num(0)
        for m, c in L.t.items():
            t = num(c)
            for a in m:
                v = I.facts.fixed(at(a)) if a[0] in ('f', 'p') else None
                t = t.mul(num(v) if v is not None else at(a))
            r = r + t
        return r
    return Frac(sub(x.n), sub(x.d))


class One:
    def __init__(self, R, U, C):
        self.R, self.U, self.C = R, U, C

    def kind(self, ty):
        k = clsname(ty)
        if k in (Z, Q, R_): return k
        return 'scalar' if SCALAR.search(ty.strip()) else None

    def rec(self, k, f):
        rs = self.C.recs.get(k, [])
        if f.get('cls') is not None:
            for r in rs:
                if r['id'] == f['cls']: return r
        p = [r for r in rs if not r.get('spec')]
        return p[0] if p else None

    def value(self, I, k, name, f):
        if k == 'scalar': return Cell(at(('p', name)))
        if k == R_: return Cell(Obj(self.rec(k, f), {'num_': Cell(at(('f', name + '.num'))), 'den_': Cell(at(('f', name + '.den')))}))
        # the parts by what the class has: an array or fields
        return Cell(I.new(self.rec(k, f), name))

    def parts(self, k, v, rational):
        """-> components over 1, i, j, k (a rational number has one)"""
        if isinstance(v, Ptr): v = v.cell.v
        z = Frac(num(0))
        if isinstance(v, Obj):
            q = bare(v.c['q'])
            if q == R_:
                for x in ('num_', 'den_'):
                    if opaque(v.f[x].v): raise Give(show(v.f[x].v))
                return [frac(v.f['num_'].v).over(frac(v.f['den_'].v))] + [z] * 3
            e = v.f.get('elems_')
            fs = [e.v.f[i].v for i in sorted(e.v.f, key=int)] if e is not None and isinstance(e.v, Obj) else [c.v for c in v.f.values()]
            for x in fs:
                if not isinstance(x, Lin) or opaque(x): raise Give(show(x))
            return ([frac(x) for x in fs] + [z] * 4)[:4]
        if isinstance(v, Lin):
            if opaque(v): raise Give(show(v))
            return [frac(v)] + [z] * 3
        raise Give('value')

    def check(self, f, label, run, expect):
        """run(I) -> value cell; expect() -> components"""
        self.R.count('operators')
        key = '%s(%s) %s' % (f['q'], ', '.join(p[3] for p in f['params']), label)
        st = {'bad': None, 'n': 0}

        def go(I):
            I.inexact = I.unsure = None
            try:
                got, exp = run(I)
            except Thrown:
                return
            if I.inexact: st['bad'] = st['bad'] or I.inexact
            if I.unsure: st['unsure'] = I.unsure
            for i, (g, w) in enumerate(zip(got, exp)):
                if not known(I, g).same(known(I, w)):
                    st['bad'] = st['bad'] or 'part %d is (%s) / (%s), not (%s) / (%s)' % (i + 1, show(g.n), show(g.d), show(w.n), show(w.d))
            st['n'] += 1
        I = Alg(self.U, self.C)
        try: I.cases(go)
        except Give as x:
            self.R.undecided('%s: %s: %s' % (loc(f), label, x)); return
        if st['bad']: self.R.bad(key, '%s: %s: %s' % (loc(f), label, st['bad'][:400]))
        elif st.get('unsure'): self.R.undecided('%s: %s: %s' % (loc(f), label, st['unsure']))
        elif st['n']: self.R.ok(); self.R.count('as the algebra says'); self.R.sample('%s %s' % (f['q'], label))
        else: self.R.undecided('%s: %s: no case' % (loc(f), label))

    def equality(self, f, ks):
        """equal just when all components are"""
        self.R.count('operators')
        st = {'bad': None, 'n': 0}

        def go(I):
            a, b = self.value(I, ks[0], 'a', f), self.value(I, ks[1], 'b', f)
            try: r = I.load(I.run(f, [a, b]).v)
            except Thrown: return
            if not isinstance(r, bool): r = I.truth(r)
            if I.facts.opaque: raise Give('condition')
            if R_ in ks:
                # numbers in lowest terms
                p = [(x.v.f['num_'].v, x.v.f['den_'].v) if isinstance(x.v, Obj) else (x.v, num(1)) for x in (a, b)]
                d = [p[0][0] - p[1][0], p[0][1] - p[1][1]]
            else: d = [x.n - y.n for x, y in zip(self.parts(ks[0], a.v, 0), self.parts(ks[1], b.v, 0))]
            e = all(I.facts.eq0(x) for x in d)
            if (r == e) == (f['name'] == 'operator!='): st['bad'] = st['bad'] or '%s for %s' % (r, '; '.join('%s: %s' % c for c in I.facts.log))
            st['n'] += 1
        I = Alg(self.U, self.C)
        try: I.cases(go)
        except Give as x:
            self.R.undecided('%s: %s: %s' % (loc(f), f['name'], x)); return
        if st['bad']: self.R.bad('%s(%s)' % (f['q'], ', '.join(p[3] for p in f['params'])), '%s: %s is %s' % (loc(f), f['name'], st['bad'][:400]))
        elif st['n']: self.R.ok(); self.R.count('as the algebra says')

    def run(self):
        for f in self.U.fns:
            if 'body' not in f or f.get('inst') or f.get('deleted') or not re.match(r'sprout/(complex|math/quaternion|rational|math/rational)', f['file']): continue
            n = f['name']
            ks = [self.kind(p[3]) for p in f['params']]
            if None in ks: continue
            own = None
            if f.get('cls') is not None:
                own = bare((self.U.byid.get(f['cls']) or {}).get('q', ''))
                if own not in (Z, Q, R_): continue
            m = re.match(r'^operator ?([-+*/])(=?)$', n)
            if m and own is None and f['kind'] == 'fn' and not m.group(2):
                if len(ks) == 2 and (ks[0] != 'scalar' or ks[1] != 'scalar'):
                    def run(I, f=f, ks=ks, op=m.group(1)):
                        a, b = self.value(I, ks[0], 'a', f), self.value(I, ks[1], 'b', f)
                        pa, pb = self.parts(ks[0], a.v, 0), self.parts(ks[1], b.v, 0)
                        return self.parts(None, I.load(I.run(f, [a, b]).v), 0), want(op, pa, pb)
                    self.check(f, 'a %s b' % m.group(1), run, None)
                elif len(ks) == 1 and ks[0] != 'scalar' and m.group(1) in '+-':
                    def run(I, f=f, ks=ks, op=m.group(1)):
                        a = self.value(I, ks[0], 'a', f)
                        pa = self.parts(ks[0], a.v, 0)
                        return self.parts(None, I.load(I.run(f, [a]).v), 0), [x.neg() if op == '-' else x for x in pa]
                    self.check(f, '%sa' % m.group(1), run, None)
            elif m and own and m.group(2) and len(ks) == 1 and f['kind'] == 'method':
                for alias in (False, True):
                    if alias and ks[0] != own: continue
                    def run(I, f=f, ks=ks, op=m.group(1), alias=alias):
                        a = self.value(I, own, 'a', f)
                        b = a if alias else self.value(I, ks[0], 'b', f)
                        pa, pb = self.parts(own, a.v, 0), self.parts(ks[0], b.v, 0)
                        r = I.run(f, [b], a)
                        if r is not a: raise Give('does not return *this')
                        return self.parts(own, a.v, 0), want(op, pa, pb)
                    self.check(f, 'a %s= %s' % (m.group(1), 'a' if alias else 'b'), run, None)
            elif n in ('operator==', 'operator!=') and own is None and len(ks) == 2 and (ks[0] != 'scalar' or ks[1] != 'scalar'): self.equality(f, ks)
            elif f['kind'] == 'ctor' and own in (Z, Q) and len(ks) == 1 and ks[0] == own and (f.get('inits') or f.get('body')):
                def run(I, f=f, own=own):
                    rs = [r for r in self.C.recs.get(own, []) if r['id'] != f['cls']] or self.C.recs[own]
                    a = Cell(I.new(rs[0], 'a'))
                    return self.parts(own, I.construct(self.rec(own, f), [a], f['id']), 0), self.parts(own, a.v, 0)
                self.check(f, 'conversion', run, None)
            elif n in ('operator++', 'operator--') and own == R_:
                def run(I, f=f, op=n[-1]):
                    a = self.value(I, own, 'a', f)
                    pa = self.parts(own, a.v, 0)
                    I.run(f, [Cell(num(0))] * len(f['params']), a)
                    return self.parts(own, a.v, 0), want(op, pa, [Frac(num(1))] + [Frac(num(0))] * 3)
                self.check(f, n, run, None)
            elif n in ('conj', 'norm', 'real', 'imag', 'unreal') and f['kind'] == 'fn' and len(ks) == 1 and ks[0] in (Z, Q) and own is None:
                def run(I, f=f, ks=ks, n=n):
                    a = self.value(I, ks[0], 'a', f)
                    pa = self.parts(ks[0], a.v, 0)
                    z = Frac(num(0))
                    nn = z
                    for x in pa: nn = nn + x * x
                    w = {'conj': [pa[0]] + [x.neg() for x in pa[1:]], 'norm': [nn, z, z, z], 'real': [pa[0], z, z, z], 'imag': [pa[1], z, z, z], 'unreal': [z] + pa[1:]}[n]
                    return self.parts(None, I.load(I.run(f, [a]).v), 0), w
                self.check(f, n, run, None)


def check(R, tier):
    R.rule('The bodies of the arithmetic operators of complex, quaternion and rational, binary, compound and unary, with every mixture of operand types, are interpreted over operands with arbitrary components in the '
           'field of quotients of polynomials. Required, component by component as an identity of polynomials: sums and differences by component, products by i*i = j*j = k*k = i*j*k = -1, quotients as the product with the '
           'conjugate over the norm; a op= b leaves a op b in a, also where b is a; conj, norm, real, imag and unreal are those of the algebra; a rational number is its numerator over its denominator.')
    R.assume += ['Exact arithmetic of the components (rounding and overflow are not modelled); divisions by a common divisor are exact.']
    for un, U in tu.header_units(('portable17', 'portable11')).items():
        One(R, U, Index(U)).run()
    R.floor('operators', 240)


if __name__ == '__main__':
    sys.exit(main('C21', check))
