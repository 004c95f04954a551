"""advance, next, prev and distance: what the functions that move and count do, as summaries in the linear domain.

A function from an iterator (and a number, a tag) to an iterator moves it by n, -n, 1 or -1; one from two iterators to a number counts; one from a pair of an
iterator and a count moves both by the same amount.  For every such function each of these summaries is tried: its body is interpreted with the summary assumed
for its own recursive calls and the summaries of its callees, and the summary is right if every case ends with it."""
import re
from ir import loc
from terms import Give
import obj
from obj import Cell, Obj, Thrown, Lin, num, at, same, show, bare, clsname, Interp, Infeasible

HERE = re.compile(r'^sprout/iterator/(next|prev|advance|distance)\.hpp$')
TAG = re.compile(r'_tag ?\*$|iterator_category ?\*$')


def kinds(d):
    """role of each parameter: i(terator), p(air), n(umber), t(ag)"""
    r = []
    for p in d['params']:
        t = re.sub(r'^const |[ &]+$', '', p[3])
        if TAG.search(p[3]): r.append('t')
        elif clsname(p[3]) == 'sprout::pair': r.append('p')
        elif t == 'type-parameter-0-0': r.append('i')
        elif 'difference_type' in t or t in ('type-parameter-0-1', 'long', 'int'): r.append('n')
        else: return None
    return ''.join(r)


class Sum:
    """kind: move (c: factor; of n or of 1), count (c: sign), pair ('end': up to last; 'any': some amount)"""
    def __init__(self, kind, c, d): self.kind, self.c, self.d = kind, c, d
    def __eq__(self, o): return isinstance(o, Sum) and (self.kind, self.c) == (o.kind, o.c)
    def text(self, n):
        if self.kind == 'move': return 'moves by %s%s' % ('-' if self.c < 0 else '', n)
        if self.kind == 'count': return 'gives ' + ('last - first' if self.c > 0 else 'first - last')
        return 'moves and counts alike'


class Steps(Interp):
    def __init__(self, S):
        Interp.__init__(self, S.U, S.C, positions=(), ptrpos=())
        self.S, self.hyp, self.fresh = S, {}, 0

    def named(self, q, targs, cands, cells, adl=False, fr=None):
        ours = [d for d in cands if d['t'] == 'fn' and HERE.match(d['file']) and obj.arity_ok(d, len(cells)) and kinds(d)]
        if q == 'sprout::math::greater_equal' and len(cells) == 2: return Cell(self.facts.ge0(self.lin(self.load(cells[0].v)) - self.lin(self.load(cells[1].v))))
        if q == 'sprout::detail::assertion_check':
            if self.load(cells[0].v) is False: raise Infeasible()
            return cells[0]
        if not ours: return Interp.named(self, q, targs, cands, cells, adl, fr)
        sums = [(d, self.hyp.get(d['id']) or self.S.summary(d)) for d in ours]
        known = [s for d, s in sums if isinstance(s, Sum)]
        if known and len(known) == len(sums) and all(s == known[0] for s in known): return self.apply_sum(ours[0], known[0], cells)
        if len(ours) == 1: return self.run(ours[0], cells)
        ws = sorted({s.text('n') for s in known})
        if len(ws) > 1:
            self.S.mixed.append((ours, '; '.join('%s %s' % (loc(d), s.text('n')) for d, s in sums if isinstance(s, Sum))))
        raise Give('overloads of ' + q)

    def apply_sum(self, d, s, cells):
        ks = kinds(d)
        by = {}
        for k, c in zip(ks, cells): by.setdefault(k, []).append(c)
        n = self.lin(self.load(by['n'][0].v)) if 'n' in by else num(1)
        g = self.S.base(d)
        if g is not None and d['id'] not in self.hyp and 'n' in by:
            lo, hi = self.facts.bounds(n if g > 0 else n.neg())
            if hi is not None and hi <= 0:
                self.S.endless.append((d, 'called with %s %s, and it ends only at n == %d' % (show(n), '<= 0' if g > 0 else '>= 0', g)))
        if s.kind == 'move':
            it = by['i'][0]
            v = self.lin(self.load(it.v)) + n.mul(num(s.c))
            if d.get('cret') == 'void': it.v = v; return None
            return Cell(v)
        if s.kind == 'count':
            a, b = by['i']
            r = self.lin(self.load(b.v)) - self.lin(self.load(a.v))
            return Cell(r if s.c > 0 else r.neg())
        p = by['p'][0].v
        self.fresh += 1
        m = at(('p', 'moved%d' % self.fresh)) if s.c == 'any' else self.lin(self.load(by['i'][0].v)) - p.f['first'].v
        return Cell(Obj(p.c, {'first': Cell(p.f['first'].v + m), 'second': Cell(p.f['second'].v + m)}))

    def stmt(self, s, fr):
        if s is not None and s[0] in ('while', 'for'):
            if s[0] == 'for':
                if s[1] is not None: self.stmt(s[1] if s[1][0] in ('decl', 'expr', 'block') else ['expr', s[1]], fr)
                c, inc, b = s[2], s[3], s[4]
            else: c, inc, b = s[1], None, s[2]
            return self.loop(c, inc, b, fr)
        return Interp.stmt(self, s, fr)

    def loop(self, c, inc, b, fr):
        """a loop whose variables change by constants and whose condition compares two of them ends where the comparison first fails"""
        if c is None or c[0] not in ('bin', 'opcall'): raise Give('loop')
        o, x, y = (c[1], c[2], c[3]) if c[0] == 'bin' else (c[1], c[3][0], c[3][1] if len(c[3]) > 1 else None)
        if o not in ('<', '>', '<=', '>=', '!=') or y is None: raise Give('loop')
        def diff(): return self.lin(self.ev(x, fr)) - self.lin(self.ev(y, fr))
        if not self.truth(self.ev(c, fr)): return None
        d0 = diff()
        before = {k: v.v for k, v in fr.env.items()}
        if any(not isinstance(v, Lin) for v in before.values()): before = {k: v for k, v in before.items() if isinstance(v, Lin)}
        if self.stmt(b, fr) is not None: raise Give('loop with return')
        if inc is not None: self.ev(inc, fr, void=True)
        d1 = diff()
        k = (d1 - d0).const()
        if k is None: raise Give('loop')
        if o in ('>', '>='): d0, k = d0.neg(), -k
        if o == '!=':
            if k == 0: raise Give('loop')
            times = d0.neg() if k == 1 else d0 if k == -1 else None
        else:
            if k <= 0:
                self.S.endless.append((fr.f, 'the loop at line %s moves away from its end' % (c[-1] if isinstance(c[-1], int) else '?')))
                raise Give('endless loop')
            times = None if k != 1 else d0.neg() if o in ('<', '>') else num(1) - d0
        if times is None: raise Give('loop')
        for n, v in before.items():
            e = (self.lin(fr.env[n].v) - v).const()
            if e is None: raise Give('loop variable')
            fr.env[n].v = v + times.mul(num(e))
        return None


class Summaries:
    def __init__(self, U, C):
        self.U, self.C = U, C
        self.memo, self.why = {}, {}
        self.mixed, self.endless = [], []

    def base(self, d):
        """k where a recursive function ends with n == k"""
        b = d.get('body')
        if not self.recursive(d): return None
        found = []
        def w(n):
            if not isinstance(n, list): return
            if n[:2] == ['bin', '=='] and isinstance(n[2], list) and n[2][0] == 'parm':
                y, s = n[3], 1
                while isinstance(y, list) and y[0] in ('un', 'icast'):
                    if y[0] == 'un' and y[1] == '-': s = -s
                    y = y[2] if y[0] == 'un' else y[3]
                if isinstance(y, list) and y[0] == 'int': found.append(s * int(y[1]))
            for x in n: w(x)
        w(b)
        return found[0] if len(found) == 1 and found[0] != 0 else None

    def recursive(self, d):
        def w(n):
            return isinstance(n, list) and (n[:1] == ['lookup'] and d['id'] in n[2] and n[1].split('::')[-1] == d['name'] or n[:1] == ['func'] and n[1] == d['id'] or any(w(x) for x in n))
        return w(d.get('body'))

    def guesses(self, d):
        ks = kinds(d)
        if ks is None: return []
        ret = d.get('cret') or ''
        if ks.count('i') == 1 and ks.count('n') <= 1 and 'p' not in ks:
            if ret == 'void' and d['params'][ks.index('i')][3].endswith('&') and 'const' not in d['params'][ks.index('i')][3] or 'type-parameter-0-0' in ret and 'difference_type' not in ret.split(',')[-1]:
                return [Sum('move', 1, d), Sum('move', -1, d)]
        if ks.count('i') == 2 and 'n' not in ks and 'p' not in ks and 'difference_type' in ret: return [Sum('count', 1, d), Sum('count', -1, d)]
        if ks.count('p') == 1 and ks.count('i') == 1 and clsname(ret) == 'sprout::pair': return [Sum('pair', 'end', d), Sum('pair', 'any', d)]
        return []

    def summary(self, d):
        """Sum; None: none is right (why says what differs); 'unk'"""
        if d['id'] in self.memo: return self.memo[d['id']]
        self.memo[d['id']] = 'unk'
        r = None if 'body' in d else 'unk'
        gs = self.guesses(d)
        if not gs: r = 'unk'
        for g in gs if r is None else ():
            ok = self.verify(d, g)
            if ok == 'yes': r = g; break
            if ok != 'no': r = 'unk'; self.why.setdefault(d['id'], ok); break
        self.memo[d['id']] = r
        return r

    def verify(self, d, g):
        I = Steps(self)
        I.hyp = {d['id']: g}
        ks = kinds(d)
        st = {'bad': None, 'unk': None}

        def go(I):
            I.fresh = 0
            cells, names = [], iter(('first', 'last') if ks.count('i') == 2 else ('it',) * 3 if 'p' not in ks else ('last',))
            for k, p in zip(ks, d['params']):
                if k == 'i': cells.append(Cell(at(('p', next(names)))))
                elif k == 'n': cells.append(Cell(at(('p', 'n'))))
                elif k == 't': cells.append(Cell(at(('p', 'tag'))))
                else: cells.append(Cell(Obj(self.C.rec('sprout::pair'), {'first': Cell(at(('p', 'first'))), 'second': Cell(at(('p', 'count')))})))
            want_in = [Cell(obj.copyv(c.v)) for c in cells]
            r = I.run(d, cells)
            got = cells[ks.index('i')] if d.get('cret') == 'void' else r
            if got is None: raise Give('no result')
            v = I.load(got.v)
            if g.kind == 'pair' and g.c == 'any':
                if not isinstance(v, Obj) or 'first' not in v.f: raise Give('no pair')
                s = same(I, I.lin(v.f['first'].v) - I.lin(v.f['second'].v), at(('p', 'first')) - at(('p', 'count')))
            else:
                I.hyp2 = True
                w = I.apply_sum(d, g, want_in)
                w = want_in[ks.index('i')] if d.get('cret') == 'void' else w
                s = same(I, v, w.v)
            if s == 'ne': st['bad'] = 'with %s' % show(v)
            elif s != 'eq': st['unk'] = st['unk'] or show(v)
        try:
            I.cases(go)
        except Give as x: return st['bad'] and 'no' or str(x)
        except Thrown: return 'throws'
        if st['bad']: self.why.setdefault(d['id'], st['bad']); return 'no'
        return 'yes' if st['unk'] is None else st['unk']


EXPECT = {'next': ('move', 1), 'prev': ('move', -1), 'advance': ('move', 1), 'distance': ('count', 1)}


def check(R, U, C, un):
    S = Summaries(U, C)
    for d in U.fns:
        if d.get('inst') or not HERE.match(d['file']) or kinds(d) is None or 'body' not in d or not d['params']: continue
        gs = S.guesses(d)
        if not gs: continue
        s = S.summary(d)
        nm = re.sub(r'^(cxx14|iterator)_|_(impl|dispatch)\w*$', '', d['name'])
        w = EXPECT.get(nm)
        key = '%s %s' % (d['q'], kinds(d))
        if s == 'unk':
            R.undecided('%s: %s: %s' % (loc(d), d['q'], S.why.get(d['id'])))
        elif s is None:
            if S.recursive(d) or w: R.bad(key, '%s: %s %s: the result ends %s' % (loc(d), d['q'], 'does not move by n or -n, nor count' if not w else 'is not what its name says', S.why.get(d['id'])))
        elif w and gs[0].kind == w[0] and s.c != w[1]:
            R.bad(key, '%s: %s %s' % (loc(d), d['q'], s.text('n' if 'n' in kinds(d) else '1')))
        else:
            R.ok(); R.count('functions that move or count (%s)' % un)
            R.sample('%s %s' % (d['q'], s.text('n' if 'n' in kinds(d) else '1')))
    for d, m in S.endless: R.bad('%s ends' % d['q'], '%s: %s: %s' % (loc(d), d['q'], m))
    for ds, m in S.mixed: R.bad('%s overloads' % ds[0]['q'], '%s: overloads differ: %s' % (ds[0]['q'], m))
