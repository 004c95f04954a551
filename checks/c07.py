"""C07: the ways of reaching an element of a container agree with one another."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import tu, obj
from ir import loc
from terms import Give
from check import main
from obj import Cell, Obj, Thrown, num, at, Lin, same, show, bare, clsname, Interp, Index

# partly applied parser directives and the like have operator[] but are no containers
ELEM = ('front', 'back')
I0 = at(('p', 'i'))


def fresh(v):
    """a value-initialised object"""
    a = v.atom() if isinstance(v, Lin) else None
    return a is not None and a[0] in ('new', 'uninit') and len(a) == 2


def own(v):
    a = v.atom() if isinstance(v, Lin) else None
    return a is not None and a[0] == 'f'


class One:
    def __init__(self, R, U, C, k, rec):
        self.R, self.U, self.C, self.k, self.rec = R, U, C, k, rec
        self.I = Interp(U, C)

    def ms(self, name, n):
        return [d for d in self.C.method(self.rec, name) if len(d['params']) == n and not d.get('static') and ('body' in d)]

    def all(self, name, n):
        for d in self.ms(name, n):
            yield d, '%s(%s)%s' % (name, 'i' if n else '', ' const' if d.get('const') else '')

    def obj(self, I):
        return Cell(I.new(self.rec, 'c'))

    def size(self, I, c):
        s = self.ms('size', 0)
        if not s: raise Give('no size()')
        return I.lin(I.run(s[0], [], c).v)

    def elem(self, I, c, i, const=True):
        ds = self.ms('operator[]', 1)
        ds = [d for d in ds if clsname(d['params'][0][3]) is None]
        if not ds: raise Give('no operator[]')
        d = next((d for d in ds if bool(d.get('const')) == const), ds[0])
        return I.run(d, [Cell(i)], c)

    def rel(self, what, d, fn):
        R, k = self.R, self.k
        st = {'ne': None, 'unk': None, 'n': 0, 'eq': 0, 'one': None}

        def go(I):
            for a, b, da, db in fn(I):
                st['n'] += 1
                s = same(I, a, b)
                if s == 'unk' and (fresh(a) and own(b) or fresh(b) and own(a)): s = 'ne'
                if s == 'eq': st['eq'] += 1; continue
                x = (show(a), show(b), da, db, list(I.facts.log))
                if s == 'unk': st['unk'] = st['unk'] or x
                elif I.facts.opaque: st['one'] = st['one'] or x
                else: st['ne'] = st['ne'] or x
        try:
            self.I.cases(go)
        except Give as x:
            R.undecided('%s %s: %s' % (k, what, x)); return
        except Thrown:
            R.undecided('%s %s: throws' % (k, what)); return
        if st['n'] == 0: R.undecided('%s %s: no case' % (k, what)); return
        if st['one'] and not st['ne']:
            if st['eq']: R.undecided('%s %s: depends on %s' % (k, what, st['one'][:4])); return
            st['ne'] = st['one']
        if st['ne']:
            a, b, da, db, log = st['ne']
            cond = ' and '.join('%s%s' % ('' if r else 'not ', w) for w, r in log)
            R.bad('%s %s' % (k, what), '%s: %s: %s is %s, but %s is %s%s' % (loc(d if d is not None else self.rec), k, da, a, db, b, ' when ' + cond if cond else ''))
        elif st['unk']:
            R.undecided('%s %s: %s / %s' % (k, what, st['unk'][0][:100], st['unk'][1][:100]))
        else:
            R.ok(); R.count('relations')
            R.sample('%s: %s' % (k, what))

    def within(self, I, c, i):
        n = self.size(I, c)
        I.facts.assume_ge(i)
        I.facts.assume_ge(n - num(1) - i)
        return n

    def run(self):
        E = self.elem
        # c[i] of a const container and of another one
        ds = [d for d in self.ms('operator[]', 1) if clsname(d['params'][0][3]) is None]
        if {bool(d.get('const')) for d in ds} == {True, False}:
            def f(I):
                c = self.obj(I)
                self.within(I, c, I0)
                return [(E(I, c, I0, False).v, E(I, c, I0).v, 'c[i]', 'c[i] of a const c')]
            self.rel('operator[]', ds[0], f)
        for d, nm in self.all('at', 1):
            if clsname(d['params'][0][3]) is not None or not ds: continue
            def f(I, d=d):
                c = self.obj(I)
                n = self.size(I, c)
                I.facts.assume_ge(n)
                I.facts.assume_ge(I0)
                out = I.facts.ge0(I0 - n)
                try:
                    v = I.run(d, [Cell(I0)], c).v
                except Thrown:
                    if not out and len(I.facts.log) > 1: raise Give('the element may not exist')
                    return [(True, out, 'at(i) throwing', 'i >= size()')]
                r = [(False, out, 'at(i) throwing', 'i >= size()')]
                if not out: r.append((v, E(I, c, I0).v, 'at(i)', 'c[i]'))
                return r
            self.rel(nm, d, f)
        for name in ELEM:
            for d, nm in self.all(name, 0):
                if not ds: continue
                def f(I, d=d, name=name):
                    c = self.obj(I)
                    n = self.within(I, c, num(0))
                    return [(I.run(d, [], c).v, E(I, c, num(0) if name == 'front' else n - num(1)).v, name + '()', 'c[0]' if name == 'front' else 'c[size() - 1]')]
                self.rel(nm, d, f)
        for name in ('begin', 'cbegin', 'data', 'c_array', 'rbegin', 'crbegin'):
            for d, nm in self.all(name, 0):
                if not ds: continue
                rev = 'rb' in name
                def f(I, d=d, name=name, rev=rev):
                    c = self.obj(I)
                    n = self.within(I, c, I0)
                    b = I.run(d, [], c)
                    p = I.operator('+', [b, Cell(I0)]) if isinstance(b.v, Obj) else Cell(I.arith('+', I.load(b.v), I0))
                    v = I.operator('*', [p]) if isinstance(p.v, Obj) else I.deref(p.v)
                    return [(v.v, E(I, c, n - num(1) - I0 if rev else I0).v, '*(%s() + i)' % name, 'c[size() - 1 - i]' if rev else 'c[i]')]
                self.rel(nm, d, f)
        for b, e in (('begin', 'end'), ('cbegin', 'cend'), ('rbegin', 'rend'), ('crbegin', 'crend')):
            for d, nm in self.all(e, 0):
                bs = [x for x in self.ms(b, 0) if bool(x.get('const')) == bool(d.get('const'))] or self.ms(b, 0)
                if not bs or not self.ms('size', 0): continue
                def f(I, d=d, x=bs[0], b=b, e=e):
                    c = self.obj(I)
                    n = self.size(I, c)
                    p, q = I.run(x, [], c), I.run(d, [], c)
                    v = I.operator('-', [q, p]).v if isinstance(q.v, Obj) else I.arith('-', I.load(q.v), I.load(p.v))
                    return [(v, n, '%s() - %s()' % (e, b), 'size()')]
                self.rel(nm, d, f)
        for c_, p_ in (('cbegin', 'begin'), ('cend', 'end'), ('crbegin', 'rbegin'), ('crend', 'rend')):
            for d, nm in self.all(c_, 0):
                ps = [x for x in self.ms(p_, 0) if x.get('const')]
                if not ps: continue
                def f(I, d=d, x=ps[0], c_=c_, p_=p_):
                    c = self.obj(I)
                    return [(I.run(d, [], c).v, I.run(x, [], c).v, c_ + '()', p_ + '() const')]
                self.rel('%s and %s' % (c_, p_), d, f)
        for d, nm in self.all('empty', 0):
            if not self.ms('size', 0): continue
            def f(I, d=d):
                c = self.obj(I)
                n = self.size(I, c)
                I.facts.assume_ge(n)
                return [(I.truth(I.run(d, [], c).v), I.facts.eq0(n), 'empty()', 'size() == 0')]
            self.rel(nm, d, f)
        for a, b in (('length', 'size'),):
            for d, nm in self.all(a, 0):
                if not self.ms(b, 0): continue
                def f(I, d=d, a=a):
                    c = self.obj(I)
                    return [(I.run(d, [], c).v, self.size(I, c), a + '()', 'size()')]
                self.rel(nm, d, f)
        for d, nm in self.all('nth', 1):
            bs = [x for x in self.ms('begin', 0) if bool(x.get('const')) == bool(d.get('const'))] or self.ms('begin', 0)
            if not bs: continue
            def f(I, d=d, x=bs[0]):
                c = self.obj(I)
                n = self.size(I, c)
                I.facts.assume_ge(n)
                I.facts.assume_ge(I0)
                out = I.facts.ge0(I0 - n)
                try:
                    v = I.run(d, [Cell(I0)], c).v
                except Thrown:
                    return [(True, out, 'nth(i) throwing', 'i >= size()')]
                if out: return [(False, True, 'nth(i) throwing', 'i >= size()')]
                b = I.run(x, [], c)
                p = I.operator('+', [b, Cell(I0)]).v if isinstance(b.v, Obj) else I.arith('+', I.load(b.v), I0)
                return [(v, p, 'nth(i)', 'begin() + i')]
            self.rel(nm, d, f)
        for d, nm in self.all('index_of', 1):
            bs = [x for x in self.ms('begin', 0) if bool(x.get('const')) == bool(d.get('const'))] or self.ms('begin', 0)
            if not bs: continue
            def f(I, d=d, x=bs[0]):
                c = self.obj(I)
                self.within(I, c, I0)
                b = I.run(x, [], c)
                p = I.operator('+', [b, Cell(I0)]) if isinstance(b.v, Obj) else Cell(I.arith('+', I.load(b.v), I0))
                return [(I.run(d, [p], c).v, I0, 'index_of(begin() + i)', 'i')]
            self.rel(nm, d, f)


# ---- the generic functions that stand for the members: begin(cont), range_end(cont), range_at_impl(cont, i)...
CANON = ('begin', 'end', 'size', 'empty', 'front', 'back', 'at', 'subscript_at', 'nth', 'index_of', 'data', 'cbegin', 'cend', 'rbegin', 'rend', 'crbegin', 'crend')


def canon(name):
    n = re.sub(r'_impl(_\d)?$|_default$', '', name)
    n = re.sub(r'^(range_adl_|range_|adl_)', '', n)
    return n if n in CANON else None


class Generic(Interp):
    """calls of the generic functions on a container given as a value have the meaning of their names"""
    def value(self, n, cells):
        v = self.load(cells[0].v)
        if n == 'subscript_at': n = 'operator[]'
        if n == 'data': return Cell(v)
        if n == 'nth' or n == 'at':
            i = self.lin(self.load(cells[1].v))
            if self.facts.ge0(i - at(('size', v.key()))): raise Thrown()
            return Cell(v + i) if n == 'nth' else self.deref(v + i)
        return self.opaque_method(v, n, cells[1:])

    def opaque_method(self, o, name, cells):
        if name in ('nth', 'at') and len(cells) == 1: return self.value(name, [Cell(o)] + cells)
        return Interp.opaque_method(self, o, name, cells)

    def named(self, q, targs, cands, cells, adl=False, fr=None):
        short = q.split('::')[-1]
        if short in ('const_reference_cast', 'const_iterator_cast') and len(cells) == 1: return cells[0]
        if cells and isinstance(cells[0].v, Lin):
            if short == 'range_index_check' and len(cells) == 2:
                if self.facts.ge0(self.lin(self.load(cells[1].v)) - at(('size', cells[0].v.key()))): raise Thrown()
                return cells[1]
            n = canon(short)
            if n and len(cells) == (2 if n in ('at', 'subscript_at', 'nth', 'index_of') else 1): return self.value(n, cells)
        return Interp.named(self, q, targs, cands, cells, adl, fr)

    def dependent(self, q, name, targs, cells):
        n = canon(name)
        if n and cells and isinstance(cells[0].v, Lin) and len(cells) == (2 if n in ('at', 'subscript_at', 'nth', 'index_of') else 1): return self.value(n, cells)
        return Interp.dependent(self, q, name, targs, cells)


def generic(R, U, C):
    I = Generic(U, C)
    seen = set()
    for d in U.fns:
        n = canon(d['name'])
        if n is None or 'body' not in d or d.get('inst') or not d['file'].startswith('sprout/'): continue
        if d['kind'] == 'method' and not (d.get('static') and d['name'].startswith('range_')): continue
        if d['kind'] not in ('fn', 'method'): continue
        k = 2 if n in ('at', 'subscript_at', 'nth', 'index_of') else 1
        ps = d['params']
        if len(ps) != k or not re.fullmatch(r'(const )?type-parameter-\d+-\d+ ?(const ?)?&', ps[0][3].strip()): continue
        if (d['file'], d['line'], d['name']) in seen: continue
        seen.add((d['file'], d['line'], d['name']))
        st = {'ne': None, 'unk': None, 'n': 0}
        arr = '[' in ps[0][3]

        def go(I):
            c = at(('p', ps[0][0] or 'cont'))
            args = [Cell(c)]
            if k == 2:
                i = at(('p', ps[1][0] or 'i'))
                if n != 'index_of': I.facts.assume_ge(i)
                args.append(Cell(i))
            want = wt = None
            try: want = I.value(n, [Cell(x.v) for x in args])
            except Thrown: wt = True
            if n == 'subscript_at': I.facts.assume_ge(at(('size', c.key())) - i - num(1))
            try: got = I.run(d, args)
            except Thrown:
                st['n'] += 1
                if not wt: st['ne'] = ('an exception', show(want.v), list(I.facts.log))
                return
            st['n'] += 1
            if wt and n == 'nth' and same(I, got.v, args[0].v + args[1].v) == 'eq': return     # documented as next(begin(cont), i) where there is no member
            if wt:
                st['ne'] = (show(got.v), 'an exception', list(I.facts.log)); return
            s = same(I, got.v, want.v)
            if s == 'ne' and k == 1 and n == 'size': s = 'unk'
            if s == 'ne': st['ne'] = (show(got.v), show(want.v), list(I.facts.log))
            elif s == 'unk':
                # the value of the wrong one of these functions
                st['unk'] = st['unk'] or (show(got.v), show(want.v))
        what = '%s(%s)' % (d['q'], ', '.join(p[0] or '_' for p in ps))
        try: I.cases(go)
        except Give as x:
            R.undecided('%s: %s: %s' % (loc(d), what, x)); continue
        except Thrown:
            R.undecided('%s: %s throws' % (loc(d), what)); continue
        if st['ne']:
            a, b, log = st['ne']
            cond = ' and '.join('%s%s' % ('' if r else 'not ', w) for w, r in log)
            R.bad(what + ps[0][3], '%s: %s gives %s, which should be %s%s' % (loc(d), what, a, b, ' when ' + cond if cond else ''))
        elif st['unk'] or not st['n']: R.undecided('%s: %s: %s' % (loc(d), what, st['unk']))
        else:
            R.ok(); R.count('generic functions')


def check(R, tier):
    R.rule('For every class with begin() or with operator[] and size(), the bodies of its accessors are interpreted over a container in an arbitrary state and an arbitrary index (linear forms over fields and index, '
           'partitioned by the outcomes of the conditions met).  Required: operator[] const and not const, at(i), *(begin() + i), *(cbegin() + i), data()[i], c_array()[i], *(rbegin() + size() - 1 - i), front() and back() designate '
           'one and the same element; at(i) throws exactly when i >= size(); end - begin is size() for all four pairs; the c-variants are the const ones; empty() is size() == 0; length() is size(); nth(i) is begin() + i; '
           'index_of(begin() + i) is i.')
    R.rule('Each generic function of that kind (begin(cont), range_end(cont), range_at_impl(cont, i), ... over any container type) has the value its name says, the others being taken at their word.')
    obj.FREE = True
    for n, U in tu.header_units(('portable17', 'pointer17')).items():
        C = Index(U)
        generic(R, U, C)
        for k in sorted(C.recs):
            for rec in C.recs[k]:
                own = C.meth.get(rec['id'], {})
                if 'operator++' in own or not ('begin' in own or ('operator[]' in own and 'size' in own)): continue
                R.count('classes (%s)' % n)
                One(R, U, C, k, rec).run()
    R.floor('classes (portable17)', 18)
    R.floor('relations', 300)
    R.floor('generic functions', 60)


if __name__ == '__main__':
    sys.exit(main('C07', check))
