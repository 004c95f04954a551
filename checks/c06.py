"""C06: the operators of an iterator agree with one another."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import tu
from ir import loc
from terms import Give
from check import main
import obj, steps
from obj import Cell, Obj, Ptr, Thrown, num, at, copyv, same, show, bare, clsname, Interp, Index

# n as it is fed to +, -, +=, -= and []: constants (so that divisions and remainders fold) and an arbitrary one
NS = [('1', num(1)), ('-1', num(-1)), ('2', num(2)), ('-2', num(-2)), ('3', num(3)), ('-3', num(-3)), ('0', num(0)), ('n', at(('p', 'n')))]


def iterators(U, C):
    for k in sorted(C.recs):
        for r in C.recs[k]:
            ms = C.meth.get(r['id'], {})
            if 'operator*' in ms and 'operator++' in ms and any(not d['params'] for d in ms['operator*']):
                yield k, r


def free(C, name, k, n):
    """free functions called name whose parameters include the class k"""
    return [f for f in C.free.get(name, []) if len(f['params']) == n and any(clsname(p[3]) == k for p in f['params'])]


def P(n): return at(('p', n))


# what the constructors establish and every operator keeps, as states over free quantities and bounds on those
A, B, CC = P('a'), P('b'), P('c')
L1, F2, P1 = P('last1'), P('first2'), P('pos1')
W = P('w')
FST, LST, CUR = P('fst'), P('lst'), P('cur')


def remake(tag, p, c2, wn, ln, given):
    """p: position in the copied window; c2: offset of current2; wn, ln: lengths of the window and of the source"""
    return (tag, {'current': CUR, 'current2': FST + c2, 'fst': FST, 'lst_': FST + ln, 'begin_off': p.neg(), 'end_off': wn - p}, given)


def step(tag, k, last):
    n = num(k).mul(W)
    return (tag, {'current': CUR, 'back': CUR + n, 'wid': W, 'last': LST, 'is_last': last}, [W - num(1)], 0 if last else k + 1)


INVARIANT = {
    'sprout::bytes_iterator': [('byte %d of %d' % (i, n), {'i_': num(i)}, [], None, {'size': num(n)}) for n in (1, 2, 4) for i in range(n)],
    'sprout::merge_iterator': [
        ('both ranges left', {'current1': L1 - A, 'las1': L1, 'current2': F2 - B, 'las2': F2}, [A - num(1), B - num(1)]),
        ('the left range left', {'current1': L1 - A, 'las1': L1, 'current2': F2, 'las2': F2}, [A - num(1)]),
        ('the right range left', {'current1': L1, 'las1': L1, 'current2': F2 - B, 'las2': F2}, [B - num(1)])],
    'sprout::step_iterator': [step('at the last step', 0, False), step('at the end', 0, True)] + [step('%d steps before the last' % k, k, False) for k in (1, 2, 3, 4)],
    'sprout::remake_iterator': [
        remake('before the copy', A.neg(), num(0), B, B + CC, [A - num(1), B, CC]),
        remake('in the copy', A, A, A + B, A + B + CC, [A, B, CC]),
        remake('after the copy', A + B, B, B, B + CC, [A - num(1), B, CC])],
    'sprout::joint_iterator': [
        ('in the first range', {'current1': L1 - A, 'last1': L1, 'first2': F2, 'current2': F2}, [A - num(1)]),
        ('in the second range', {'current1': L1, 'last1': L1, 'first2': F2, 'current2': F2 + B}, [B])],
    'sprout::insert_range_iterator': [
        ('before the insertion', {'current1': P1 - A, 'pos1': P1, 'first2': F2, 'current2': F2, 'last2': F2 + B}, [A - num(1), B]),
        ('in the inserted range', {'current1': P1, 'pos1': P1, 'first2': F2, 'current2': F2 + B, 'last2': F2 + B + CC}, [B, CC]),
        ('after the insertion', {'current1': P1 + A, 'pos1': P1, 'first2': F2, 'current2': F2 + B, 'last2': F2 + B}, [A - num(1), B])],
}


class One:
    def __init__(self, R, U, C, k, rec):
        self.R, self.U, self.C, self.k, self.rec = R, U, C, k, rec
        self.I = Interp(U, C, positions=(), ptrpos=())
        self.state, self.given, self.tag = {}, [], ''

    def where(self, d=None):
        return '%s: %s' % (loc(d if d is not None else self.rec), self.k)

    def rel(self, what, d, fn, ahead=0):
        """ahead: the largest number of steps forward the relation takes, None if there is no bound on it"""
        for tag, self.state, self.given, *left in INVARIANT.get(self.k, [('', {}, [])]):
            self.I.known = left[1] if len(left) > 1 else {}
            if left and left[0] is not None and (ahead is None or ahead > left[0]): continue       # there are no more than that many steps to the end
            self.rel1(what + (' (%s)' % tag if tag else ''), d, fn)

    def rel1(self, what, d, fn):
        """fn(I) -> [(left, right, description of left, of right)]; reports where they can differ"""
        R = self.R
        st = {'ne': None, 'unk': None, 'n': 0, 'eq': 0, 'one': None}

        def go(I):
            try:
                prs = fn(I)
            except Thrown:
                return
            for a, b, da, db in prs:
                s = same(I, a, b)
                st['n'] += 1
                if s == 'ne' and I.facts.opaque:
                    st['one'] = st['one'] or (show(a), show(b), da, db, [])
                    continue
                if s != 'ne': st['eq'] += 1
                if s == 'ne' and st['ne'] is None: st['ne'] = (show(a), show(b), da, db, [w for w in I.facts.log])
                elif s == 'unk' and st['unk'] is None: st['unk'] = (show(a, 100), show(b, 100), da, db)
        try:
            n = self.I.cases(go)
        except Give as x:
            R.undecided('%s %s: %s' % (self.k, what, x)); return
        R.count('cases', n)
        if st['n'] == 0: R.undecided('%s %s: no case returns' % (self.k, what)); return
        if st['one'] and not st['ne']:
            if st['eq']:
                R.undecided('%s %s: depends on %s' % (self.k, what, st['one'])); return
            st['ne'] = st['one']
        if st['ne']:
            a, b, da, db, log = st['ne']
            cond = ' and '.join('%s%s' % ('' if r else 'not ', w) for w, r in log)
            R.bad('%s %s' % (self.k, what), '%s: %s is %s, but %s is %s%s' % (self.where(d), da, a, db, b, ' when ' + cond if cond else ''))
        elif st['unk']:
            R.undecided('%s %s: %s / %s' % (self.k, what, st['unk'][0], st['unk'][1]))
        else:
            R.ok(); R.count('relations')
            R.sample('%s: %s (%d cases)' % (self.k, what, n))

    def start(self, I):
        o = I.new(self.rec, 'it')
        for n, v in self.state.items():
            if n in o.f: o.f[n].v = v
        for L in self.given: I.facts.assume_ge(L)
        return Cell(o)

    def m(self, name, n):
        return next((d for d in self.C.method(self.rec, name) if len(d['params']) == n), None)

    def run(self):
        C, k, R = self.C, self.k, self.R
        op = lambda I, o, cs: I.operator(o, cs)
        inc, dec = self.m('operator++', 0), self.m('operator--', 0)

        def stepped(I, o, c0=None):
            c = c0 or self.start(I)
            op(I, o, [c])
            return c.v

        # ++/-- return the iterator itself
        for o, d in (('++', inc), ('--', dec)):
            if d is None: continue
            def f(I, o=o, d=d):
                c = self.start(I)
                r = I.run(d, [], c)
                return [(True if r is c else r.v if r is not None else None, True if r is c else c.v, 'the value of %s' % o, 'the iterator')]
            self.rel('value of ' + o, d, f, int(o == '++'))
        for o, d in (('++', inc), ('--', dec)):
            if d is None: continue
            s = 'post' + o
            pd = self.m('operator' + o, 1)
            if pd is not None:
                def f(I, o=o, pd=pd):
                    c = self.start(I)
                    old = copyv(c.v)
                    r = I.run(pd, [Cell(num(0))], c)
                    out = [(c.v, stepped(I, o), 'the iterator after it%s' % o, 'the iterator after %sit' % o)]
                    if r is not None and isinstance(r.v, Obj) and bare(r.v.c['q']) == k:
                        out.append((r.v, old, 'the value of it%s' % o, 'the iterator before'))
                    return out
                self.rel('it' + o, pd, f, int(o == '++'))
            nm = 'next' if o == '++' else 'prev'
            nd = self.m(nm, 0)
            if nd is not None:
                def f(I, o=o, nd=nd, nm=nm):
                    c = self.start(I)
                    return [(I.run(nd, [], c).v, stepped(I, o), nm + '()', 'the iterator after ' + o)]
                self.rel(nm + '()', nd, f, int(o == '++'))
            for fd in free(C, 'iterator_' + nm, k, 1):
                def f(I, o=o, fd=fd):
                    c = self.start(I)
                    return [(I.run(fd, [c]).v, stepped(I, o), 'iterator_%s(it)' % nm, 'the iterator after ' + o)]
                self.rel('iterator_' + nm, fd, f, int(o == '++'))
        plus = self.m('operator+', 1) or next(iter(free(C, 'operator+', k, 2)), None)
        minus = self.m('operator-', 1)
        # + and - of small n against repeated ++ and --
        for s, n in NS:
            if plus is None: break
            kn = n.const()
            if kn:
                o = '++' if kn > 0 else '--'
                if (inc if kn > 0 else dec) is not None:
                    def f(I, o=o, n=n, kn=kn):
                        c = self.start(I)
                        a = op(I, '+', [c, Cell(n)]).v
                        b = self.start(I)
                        for _ in range(abs(kn)): op(I, o, [b])
                        return [(a, b.v, 'it + (%d)' % kn, 'it after %d %s' % (abs(kn), o))]
                    if abs(kn) <= 2: self.rel('it + (%d)' % kn, plus, f, kn)
            for o, sg in (('+', 1), ('-', -1)):
                od = plus if o == '+' else minus
                if od is None: continue
                def f(I, o=o, sg=sg):
                    c = self.start(I)
                    a = op(I, '+', [c, Cell(n if sg > 0 else n.neg())]).v
                    b = self.start(I)
                    return [(op(I, o, [b, Cell(n)]).v, a, 'it %s (%s)' % (o, s), 'it + (%s%s)' % ('' if sg > 0 else '-', s))]
                if sg < 0: self.rel('it - (%s)' % s, od, f, kn and -kn)
                ad = self.m('operator' + o + '=', 1)
                if ad is not None:
                    def f(I, o=o, ad=ad):
                        c = self.start(I)
                        a = op(I, o, [c, Cell(n)]).v
                        b = self.start(I)
                        r = I.run(ad, [Cell(n)], b)
                        return [(b.v, a, 'it after it %s= (%s)' % (o, s), 'it %s (%s)' % (o, s)), (True if r is b else r.v if r is not None else None, True if r is b else b.v, 'the value of %s=' % o, 'the iterator')]
                    self.rel('it %s= (%s)' % (o, s), ad, f, kn and kn * sg)
            for fd in free(C, 'operator+', k, 2):
                if clsname(fd['params'][1][3]) == k and clsname(fd['params'][0][3]) is None and fd is not plus:
                    def f(I, fd=fd):
                        c = self.start(I)
                        return [(I.run(fd, [Cell(n), c]).v, op(I, '+', [self.start(I), Cell(n)]).v, '(%s) + it' % s, 'it + (%s)' % s)]
                    self.rel('(%s) + it' % s, fd, f, kn)
            sub = self.m('operator[]', 1)
            if sub is not None:
                def f(I, sub=sub):
                    c = self.start(I)
                    a = I.run(sub, [Cell(n)], c).v
                    b = op(I, '+', [self.start(I), Cell(n)])
                    return [(a, I.operator('*', [b]).v, 'it[%s]' % s, '*(it + (%s))' % s)]
                self.rel('it[%s]' % s, sub, f, None if kn is None else kn + 1)
            dd = [fd for fd in C.free.get('operator-', []) if len(fd['params']) == 2 and all(clsname(p[3]) == k for p in fd['params'])]
            dm = [d for d in C.method(self.rec, 'operator-') if len(d['params']) == 1 and clsname(d['params'][0][3]) == k]
            if dd or dm:
                def f(I):
                    c = self.start(I)
                    b = op(I, '+', [self.start(I), Cell(n)])
                    return [(op(I, '-', [b, c]).v, n, '(it + (%s)) - it' % s, s), (op(I, '-', [c, b]).v, n.neg(), 'it - (it + (%s))' % s, '-(%s)' % s)]
                self.rel('(it + (%s)) - it' % s, (dd or dm)[0], f, kn)
        # -> designates what * does
        ar, st = self.m('operator->', 0), self.m('operator*', 0)
        if ar is not None and st is not None:
            def f(I):
                a = I.run(ar, [], self.start(I)).v
                b = I.addr(I.run(st, [], self.start(I)))
                return [(a, b, 'operator->()', '&*it')]
            self.rel('operator->', ar, f)
        # comparisons of it with it, it + 1 and it - 1
        for o, vals in (('==', (1, 0, 0)), ('!=', (0, 1, 1)), ('<', (0, 1, 0)), ('>', (0, 0, 1)), ('<=', (1, 1, 0)), ('>=', (1, 0, 1))):
            cd = [fd for fd in C.free.get('operator' + o, []) if len(fd['params']) == 2 and all(clsname(p[3]) == k for p in fd['params'])]
            cd += [d for d in C.method(self.rec, 'operator' + o) if len(d['params']) == 1]
            if not cd: continue
            for which, w, step in (('it', vals[0], None), ('next', vals[1], inc), ('prev', vals[2], dec)):
                if which != 'it' and step is None: continue
                def f(I, o=o, which=which, w=w):
                    a = self.start(I)
                    b = self.start(I)
                    if which != 'it': op(I, '++' if which == 'next' else '--', [b])
                    return [(op(I, o, [a, b]).v, bool(w), 'it %s %s' % (o, {'it': 'it', 'next': 'next(it)', 'prev': 'prev(it)'}[which]), 'what the order says')]
                self.rel('it %s %s' % (o, which), cd[0], f, int(which == 'next'))


def check(R, tier):
    R.rule('For every class with operator* and operator++ the bodies of its operators are interpreted over an iterator in an arbitrary state, fields and scalars being linear forms over that state, with one case for '
           'each outcome of the conditions met.  Required: ++it and --it return it; it++ and it-- leave it as ++it and --it do and return the old value; next(), prev(), iterator_next, iterator_prev, it + k and it - k '
           'are the corresponding number of steps; += and -= store what + and - return; n + it is it + n; it[n] is *(it + n); (it + n) - it is n; -> is the address of *; the comparisons of it with itself, its successor '
           'and its predecessor have the values their order says.  advance, next, prev and distance with all their helpers: each of them moves by n, -n, 1 or -1 or counts last - first (summaries verified body by body, '
           'recursive calls by hypothesis, loops by their end condition), the one its name says; a recursive helper is not called with a number from which it never ends.')
    for n, U in tu.header_units(('portable17', 'pointer17')).items():
        C = Index(U)
        for k, rec in iterators(U, C):
            R.count('iterator classes (%s)' % n)
            One(R, U, C, k, rec).run()
        if n == 'portable17': steps.check(R, U, C, n)
    R.floor('iterator classes (portable17)', 30)
    R.floor('relations', 2000)
    R.floor('functions that move or count (portable17)', 30)


if __name__ == '__main__':
    sys.exit(main('C06', check))
