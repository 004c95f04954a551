"""Collecting abstract interpretation of searching and counting functions over arbitrary ranges.

A range is a sequence of gaps between named positions. A gap stands for one element (L=1) or for any number of two or more (L=2),
of which none, exactly one or two and more match (k=0, 1, 2). Reading an element or halving a range splits a gap in every possible
way; positions nobody refers to any more are dropped and their gaps joined. The results of a function for an abstract argument are
a finite set, computed as a least fixpoint over all functions reached.

Integers are constants up to 2 and "three or more" (mode abs), or linear forms over the numbers of matches between positions (mode rel)."""
from terms import Give
from ir import arity_ok

MANY = ('many',)


class Past(Give): pass


# labels of parts all whose elements match, or that come before, at or after the place looked for
ALL, LESS, SAME, MORE = 3, 10, 11, 12


def cnt(g): return g[1] if g[1] <= 2 else g[0] if g[1] == ALL else 0


def splits(g, half=False):
    L, k = g
    if L == 1: return
    if k > 2:
        for L1 in (1, 2):
            for L2 in (1, 2):
                if not half or L1 <= L2: yield (L1, k), (L2, k)
        return
    for L1 in (1, 2):
        for L2 in (1, 2):
            if half and L1 > L2: continue
            for k1 in range(0, 3 if L1 == 2 else 2):
                for k2 in range(0, 3 if L2 == 2 else 2):
                    if min(2, k1 + k2) == k: yield (L1, k1), (L2, k2)


def join(gs):
    if len(gs) == 1: return gs[0]
    if gs and gs[0][1] > 2 and all(g[1] == gs[0][1] for g in gs): return (2, gs[0][1])
    if any(g[1] > ALL for g in gs): raise Give('joins parts of an ordered range')
    if any(g[1] > 2 for g in gs): return (2, min(2, sum(cnt(g) for g in gs)))
    return (2, min(2, sum(k for _, k in gs)))


def common(A, B):
    """joint refinements of two partitions of one range: lists of (gap, ends a gap of A, ends a gap of B)"""
    if not A and not B: yield []; return
    if not A or not B: return
    a, b = A[0], B[0]
    if a == b:
        for r in common(A[1:], B[1:]): yield [(a, True, True)] + r
    for x, y in splits(a):
        if x == b:
            for r in common((y,) + tuple(A[1:]), B[1:]): yield [(b, False, True)] + r
    for x, y in splits(b):
        if x == a:
            for r in common(A[1:], (y,) + tuple(B[1:])): yield [(a, True, False)] + r


class St:
    __slots__ = ('order', 'gaps', 'halves', 'env')
    def __init__(self, order, gaps, halves=(), env=None):
        self.order, self.gaps, self.halves, self.env = order, gaps, halves, env or {}

    def at(self, p):
        try: return self.order.index(p)
        except ValueError: raise Give('a position of another range')

    def split(self, i, parts):
        """gap i in two, with a new position"""
        p = max(self.order) + 1
        return St(self.order[:i + 1] + (p,) + self.order[i + 1:], self.gaps[:i] + parts + self.gaps[i + 1:], self.halves, self.env), p

    def let(self, n, v):
        e = dict(self.env); e[n] = v
        return St(self.order, self.gaps, self.halves, e)


def posin(v, out):
    """positions a value refers to"""
    if isinstance(v, tuple) and v:
        if v[0] in ('p', 'e'): out.add(v[1])
        elif v[0] in ('d', 'dd'): out.update(v[1:3])
        elif v[0] == 'pair':
            for x in v[1:]: posin(x, out)
        elif v[0] == 'form':
            out.update(k[1] for k, c in v[2] if k[0] == 'C')
    return out


def mapv(v, f):
    if isinstance(v, tuple) and v:
        if v[0] in ('p', 'e'): return (v[0], f(v[1]))
        if v[0] in ('d', 'dd'): return (v[0], f(v[1]), f(v[2])) + v[3:]
        if v[0] == 'pair': return ('pair',) + tuple(mapv(x, f) for x in v[1:])
        if v[0] == 'form': return form(v[1], [(('C', f(k[1])) if k[0] == 'C' else k, c) for k, c in v[2]])
    return v


def form(d, ts):
    t = {}
    for k, c in ts: t[k] = t.get(k, 0) + c
    return ('form', d, tuple(sorted((k, c) for k, c in t.items() if c)))


def mapform(v, f):
    """forms within a value"""
    if isinstance(v, tuple) and v:
        if v[0] == 'form': return f(v)
        if v[0] == 'pair': return ('pair',) + tuple(mapform(x, f) for x in v[1:])
    return v


class Words:
    def __init__(self, U, hit, mode, limit=4000, exact=False):
        self.exact = exact
        self.U, self.hit, self.mode, self.limit = U, hit, mode, limit
        self.res, self.steps = {}, 0
        self.todo, self.queued, self.users = [], set(), {}
        self.fns = set()

    # ---- fixpoint
    def solve(self, f, argv, gaps, marks=()):
        key = (f['id'], tuple(argv), gaps, marks)
        self.steps = 0
        if key not in self.res: self.todo = [key]; self.res[key] = frozenset()
        while self.todo:
            k = self.todo.pop()
            self.cur = k
            self.queued.discard(k)
            r = self.evalkey(k)
            if not r <= self.res[k]:
                self.res[k] |= r
                for c in self.users.get(k, ()):
                    if c not in self.queued: self.queued.add(c); self.todo.insert(0, c)
        return key, self.res[key]

    def evalkey(self, key):
        fid, argv, gaps, marks = key
        f = self.U.byid[fid]
        self.fns.add(f['q'])
        n = len(gaps) + 1
        env = {}
        for p, v in zip(f['params'], argv): env[p[0]] = v
        for i, m in enumerate(marks): env[('G', i)] = ('p', m)
        st = St(tuple(range(n)), gaps, (), env)
        out = set()
        for s, v in self.block(f['body'], st, f):
            if v is None: raise Give('no value')
            out.add(self.normal(s, v[0], n))
        return frozenset(out)

    def normal(self, s, v, n):
        """result in terms of the argument positions 0..n-1 and those the value refers to"""
        if self.mode == 'rel': v = self.relate(s, v, n)
        keep = set(range(n)) | posin(v, set())
        x = v[1] if isinstance(v, tuple) and v[0] == 'pair' and True in v[1:] else v
        if isinstance(x, tuple) and x[0] == 'p':
            # the element found stays known
            i = s.at(x[1])
            if i < len(s.gaps) and s.gaps[i][0] == 1: keep.add(s.order[i + 1])
        s, v = self.drop(s, v, keep)
        ix = {p: i for i, p in enumerate(s.order)}
        return (s.gaps, tuple(ix[i] for i in range(n)), mapv(v, lambda p: ix[p]))

    def drop(self, s, v, keep):
        order, gaps, cur = [], [], []
        for i, p in enumerate(s.order):
            if i: cur.append(s.gaps[i - 1])
            if p in keep:
                if order: gaps.append(join(cur))
                order.append(p); cur = []
        return St(tuple(order), tuple(gaps), tuple(h for h in s.halves if all(x in keep for x in h)), s.env), v

    def truth(self, v, s):
        if isinstance(v, bool): return v
        if isinstance(v, tuple) and v[0] == 'd': return self.dist(v, s)[0] > 0
        n = v[1] if isinstance(v, tuple) and v[0] == 'i' else self.flat(v, s) if isinstance(v, tuple) and v[0] == 'form' else None
        if n is None: raise Give('condition')
        return n != 0

    def relate(self, s, v, n):
        """counts of what was looked at, where joining the gaps would lose their number"""
        if isinstance(v, bool): v = self.const(int(v))
        if not isinstance(v, tuple): raise Give('value')
        end = s.order[-1]
        if v[0] == 'pair':
            ps = [x[1] for x in v[1:] if isinstance(x, tuple) and x[0] == 'p']
            if len(ps) == 1: end = ps[0]
        keep = set(range(n)) | {p for p in posin(v, set()) if not self.onlycount(v, p)}

        def one(fm):
            d, ts = fm[1], dict(fm[2])
            order = [p for p in s.order if p in keep]
            # positions that go: through a neighbour with a known number of matches between
            for p in [k[1] for k in list(ts) if k[0] == 'C' and k[1] not in keep]:
                c = ts.pop(('C', p))
                i = s.at(p); done = False
                for dirn in (-1, 1):
                    j, tot = i, 0
                    while 0 <= j + dirn < len(s.order):
                        g = s.gaps[j - 1 if dirn < 0 else j]
                        if g[1] >= 2: break
                        tot += g[1]; j += dirn
                        if s.order[j] in keep:
                            ts[('C', s.order[j])] = ts.get(('C', s.order[j]), 0) + c
                            d += -dirn * tot * c
                            done = True; break
                    if done: break
                if not done: raise Give('a count that depends on a place in between')
            used = any(k[0] == 'C' for k in ts)
            for a, b in zip(order, order[1:]):
                if s.at(b) > s.at(end): break
                gs = s.gaps[s.at(a):s.at(b)]
                if len(gs) > 1 and all(g[1] < 2 for g in gs) and join(gs)[1] == 2 and not used:
                    d -= sum(g[1] for g in gs)
                    ts[('C', b)] = ts.get(('C', b), 0) + 1
                    ts[('C', a)] = ts.get(('C', a), 0) - 1
            return form(d, ts.items())
        return mapform(v, one)

    def onlycount(self, v, p):
        if not isinstance(v, tuple): return True
        if v[0] == 'pair': return all(self.onlycount(x, p) for x in v[1:])
        return v[0] == 'form' or p not in posin(v, set())

    # ---- statements: yield (state, None | (value,))
    def block(self, b, s, f):
        if b is None: yield s, None; return
        t = b[0]
        self.steps += 1
        if self.steps > 3000000: raise Give('too many steps')
        if t == 'block':
            def seq(i, s):
                if i == len(b[1]): yield s, None; return
                for s2, r in self.block(b[1][i], s, f):
                    if r is not None: yield s2, r
                    else: yield from seq(i + 1, s2)
            yield from seq(0, s)
        elif t == 'ret':
            for s2, v in self.ev(b[1], s, f): yield s2, (v,)
        elif t == 'decl':
            def dec(i, s):
                if i == len(b[1]): yield s, None; return
                d = b[1][i]
                if len(d) > 5 and d[5] or d[4] is None: raise Give('declaration')
                e = d[4]
                while e[0] in ('ilist', 'plist') and len(e[-1] if isinstance(e[-1], list) else e[1]) == 1: e = (e[-1] if isinstance(e[-1], list) else e[1])[0]
                for s2, v in self.ev(e, s, f): yield from dec(i + 1, s2.let(('L', d[0]), v))
            yield from dec(0, s)
        elif t == 'if':
            for s2, v in self.ev(b[1], s, f):
                b2 = b[2] if self.truth(v, s2) else b[3]
                if b2 is None: yield s2, None
                else: yield from self.block(b2, s2, f)
        elif t == 'nop': yield s, None
        elif t == 'expr':
            for s2, v in self.ev(b[1], s, f): yield s2, None
        elif t in ('for', 'while'):
            if t == 'for':
                init = b[1]
                c, inc, body = b[2], b[3], b[4]
                if init is not None and init[0] not in ('decl', 'expr', 'block'): init = ['expr', init]
            else: init, c, inc, body = None, b[1], None, b[2]
            n = len(f['params'])
            todo = [s1 for s1, r in (self.block(init, s, f) if init is not None else [(s, None)])]
            if self.mode == 'rel': raise Give('loop')
            seen = set()
            nargs = s.order
            while todo:
                x = self.canon(todo.pop(), nargs)
                k = (x.order, x.gaps, tuple(sorted(x.env.items(), key=repr)))
                if k in seen: continue
                seen.add(k)
                if len(seen) > 3000: raise Give('loop')
                for s2, v in self.ev(c, x, f) if c is not None else [(x, True)]:
                    if not self.truth(v, s2): yield s2, None; continue
                    for s3, r in self.block(body, s2, f):
                        if r is not None: yield s3, r; continue
                        if inc is None: todo.append(s3)
                        else: todo += [s4 for s4, _ in self.ev(inc, s3, f)]
        else: raise Give('statement ' + str(t))

    def canon(self, s, fixed):
        keep = set(fixed)
        for v in s.env.values(): posin(v, keep)
        s, _ = self.drop(s, None, keep)
        m, n = {}, max(fixed) + 1
        for p in s.order:
            if p in fixed: m[p] = p
            else: m[p] = n; n += 1
        f = lambda p: m[p]
        return St(tuple(m[p] for p in s.order), s.gaps, (), {k: mapv(v, f) for k, v in s.env.items()})

    # ---- expressions: yield (state, value)
    def many(self, es, s, f):
        if not es: yield s, []; return
        for s1, v in self.ev(es[0], s, f):
            # a value evaluated first is kept in the environment's stead
            for s2, r in self.many(es[1:], s1, f): yield s2, [v] + r

    def ev(self, e, s, f):
        self.steps += 1
        t = e[0]
        if t == 'parm':
            if e[2] not in s.env: raise Give('parameter')
            yield s, s.env[e[2]]
        elif t == 'local' or t == 'var':
            v = s.env.get(('L', e[1]))
            if v is None: raise Give('variable')
            yield s, v
        elif t == 'int': yield s, self.const(int(e[1]))
        elif t == 'bool': yield s, bool(e[1])
        elif t == 'icast': yield from self.ev(e[3], s, f)
        elif t == 'cast': 
            for s1, v in self.ev(e[4], s, f): yield s1, v
        elif t in ('paren', 'bindtemp', 'mattemp'): yield from self.ev(e[1], s, f)
        elif t == 'cond':
            for s1, c in self.ev(e[1], s, f):
                yield from self.ev(e[2] if self.truth(c, s1) else e[3], s1, f)
        elif t == 'opcall':
            for s1, a in self.many(e[3], s, f): yield from self.op(e[1], a, s1, e[3])
        elif t == 'bin':
            o = e[1]
            if o in ('&&', '||'):
                for s1, a in self.ev(e[2], s, f):
                    a = self.truth(a, s1)
                    if a == (o == '||'): yield s1, a
                    else:
                        for s2, b in self.ev(e[3], s1, f): yield s2, self.truth(b, s2)
            elif o == ',':
                for s1, a in self.ev(e[2], s, f): yield from self.ev(e[3], s1, f)
            elif o == '=' or o in ('+=', '-='):
                n = self.lname(e[2])
                for s1, v in self.many([e[2], e[3]] if o != '=' else [e[3]], s, f):
                    for s2, w in self.op(o[0], v, s1) if o != '=' else [(s1, v[0])]: yield s2.let(n, w), w
            else:
                for s1, a in self.many([e[2], e[3]], s, f): yield from self.op(o, a, s1)
        elif t == 'un':
            o = e[1]
            if o in ('++', 'post++', '--', 'post--'):
                n = self.lname(e[2])
                for s1, a in self.ev(e[2], s, f):
                    if isinstance(a, tuple) and a[0] == 'p':
                        for s2, b in self.step(a, s1) if '+' in o else self.back(a, s1): yield s2.let(n, b), (a if o.startswith('post') else b)
                    else:
                        for s2, b in self.op(o[-1], [a, self.const(1)], s1): yield s2.let(n, b), (a if o.startswith('post') else b)
            else:
                for s1, a in self.ev(e[2], s, f):
                    if o == '!': yield s1, not self.truth(a, s1)
                    elif o == '*' and isinstance(a, tuple) and a[0] == 'p': yield s1, ('e', a[1])
                    else: raise Give('operator ' + o)
        elif t in ('dmember', 'member', 'umember') and e[2] in ('first', 'second'):
            for s1, a in self.ev(e[1], s, f):
                if not isinstance(a, tuple) or a[0] != 'pair': raise Give('member')
                yield s1, a[1 if e[2] == 'first' else 2]
        elif t == 'uctor':
            a = e[3]
            if len(a) == 2 and 'sprout::pair' in (e[2] or ''):
                for s1, v in self.many(a, s, f): yield s1, ('pair',) + tuple(v)
            elif not a and 'iterator_category' in (e[2] or ''): yield s, ('tag',)
            elif not a and 'sprout::less<' in (e[2] or ''): yield s, ('comp',)
            elif len(a) == 1: yield from self.ev(a[0], s, f)
            else: raise Give('constructor')
        elif t == 'call': yield from self.call(e, s, f)
        elif t == 'ctor' and not e[4] and e[2] in ('sprout::less<void>', 'sprout::greater<void>'): yield s, ('comp',) if 'less' in e[2] else ('moc',)
        else: raise Give('expression ' + t)

    def lname(self, e):
        if e[0] == 'parm': return e[2]
        if e[0] in ('local', 'var'): return ('L', e[1])
        raise Give('assignment')

    def const(self, n):
        if self.mode == 'rel': return form(n, ())
        return ('i', min(n, 3)) if n >= 0 and not self.exact else ('i', n)

    def step(self, p, s):
        i = s.at(p[1])
        if i >= len(s.gaps): raise Past('steps past the end')
        g = s.gaps[i]
        if g[0] == 1: yield s, ('p', s.order[i + 1]); return
        for a, b in splits(g):
            if a[0] != 1: continue
            s2, q = s.split(i, (a, b))
            yield s2, ('p', q)

    def back(self, p, s):
        i = s.at(p[1])
        if i == 0: raise Past('steps before the beginning')
        g = s.gaps[i - 1]
        if g[0] == 1: yield s, ('p', s.order[i - 1]); return
        for a, b in splits(g):
            if b[0] != 1: continue
            s2, q = s.split(i - 1, (a, b))
            yield s2, ('p', q)

    def match(self, p, s):
        """whether the element at p is one that is looked for"""
        i = s.at(p)
        if i >= len(s.gaps): raise Past('reads past the end')
        g = s.gaps[i]
        if g[1] > ALL: raise Give('matching in an ordered range')
        if g[0] == 1: yield s, g[1] in (1, ALL); return
        for a, b in splits(g):
            if a[0] != 1: continue
            s2, _ = s.split(i, (a, b))
            yield s2, a[1] in (1, ALL)

    def elem(self, p, s):
        for s2, m in self.match(p, s): yield s2, m == self.hit

    def less(self, a, b, s):
        """comparison of an element with the value looked for"""
        e = [v for v in (a, b) if isinstance(v, tuple) and v[0] == 'e']
        if len(e) != 1 or ('val',) not in (a, b): raise Give('arguments of the comparison')
        i = s.at(e[0][1])
        if i >= len(s.gaps): raise Past('reads past the end')
        k = s.gaps[i][1]
        if k <= ALL: raise Give('comparison in a range that is not ordered')
        yield s, k == (LESS if b == ('val',) else MORE)

    def intcmp(self, o, a, b):
        """comparison of saturating integers"""
        x, y = a[1], b[1]
        if x == 3 and y == 3 and not self.exact: raise Give('comparison of large numbers')
        return {'==': x == y, '!=': x != y, '<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[o]

    def dist(self, v, s):
        """(lower bound, exact?) of a distance"""
        i, j = s.at(v[1]), s.at(v[2])
        if i > j: raise Give('negative distance')
        gs = s.gaps[i:j]
        return sum(g[0] for g in gs), all(g[0] == 1 for g in gs)

    def flat(self, fm, s):
        """constant value of a form, None when it is not one"""
        d, ts = fm[1], dict(fm[2])
        if any(k[0] != 'C' for k in ts): return None
        acc, bal = d, 0
        ps = [p for p in s.order if ('C', p) in ts]
        for p, q in zip(s.order, s.order[1:]):
            bal += ts.get(('C', p), 0)
            if bal:
                g = s.gaps[s.at(p)]
                if g[1] >= 2: return None
                acc -= bal * g[1]
        return acc

    def op(self, o, a, s, es=None):
        if len(a) == 1: raise Give('operator ' + o)
        x, y = a
        tx, ty = (v[0] if isinstance(v, tuple) else 'bool' for v in (x, y))
        cmp = o in ('==', '!=', '<', '>', '<=', '>=')
        if {tx, ty} == {'e', 'val'} and o in ('==', '!='):
            for s1, m in self.elem(x[1] if tx == 'e' else y[1], s): yield s1, m == (o == '==')
            return
        if tx == ty == 'p':
            if cmp:
                i, j = s.at(x[1]), s.at(y[1])
                yield s, {'==': i == j, '!=': i != j, '<': i < j, '>': i > j, '<=': i <= j, '>=': i >= j}[o]; return
            if o == '-':
                yield s, ('d', y[1], x[1]); return
        if o in ('&', '|', '^') and tx == ty == 'bool':
            yield s, {'&': x and y, '|': x or y, '^': x != y}[o]; return
        if tx == 'bool' and (ty in ('i', 'form') or ty == 'bool' and o not in ('==', '!=')): x = self.const(int(x)); tx = x[0]
        if ty == 'bool' and tx in ('i', 'form'): y = self.const(int(y)); ty = y[0]
        if tx == ty == 'bool' and o in ('==', '!='):
            yield s, (x == y) == (o == '=='); return
        if self.exact:
            # every number of steps is known
            if tx in ('d', 'dd') and cmp or ty in ('d', 'dd') and cmp or tx in ('d', 'dd') and o in '+-*/' and ty != 'p' and not (o == '/' and tx == 'd'):
                x = self.steps_of(x, s); y = self.steps_of(y, s)
                if x is not None and y is not None:
                    if cmp: yield s, {'==': x == y, '!=': x != y, '<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[o]
                    elif o == '/' and (y <= 0 or x < 0): raise Give('division')
                    else: yield s, self.const({'+': x + y, '-': x - y, '*': x * y, '/': x // max(y, 1)}[o])
                    return
                raise Give('number')
            if tx == 'p' and o in '+-' and ty != 'p':
                n = self.steps_of(y, s)
                if n is None: raise Give('number of steps')
                i = s.at(x[1]) + (n if o == '+' else -n)
                if not 0 <= i < len(s.order): raise Past('steps past the end' if i > 0 else 'steps before the beginning')
                yield s, ('p', s.order[i]); return
        if tx == 'p' and o == '+' and ty == 'dd':
            if y[1] == x[1]:
                def more(n, q, s):
                    if n == 0: yield s, q; return
                    for s1, q1 in self.step(q, s): yield from more(n - 1, q1, s1)
                yield from more(y[3], ('p', y[2]), s); return
            z = list(self.step(x, s))
            if y[3] == 1 and len(z) == 1 and z[0][1] == ('p', y[1]): yield s, ('p', y[2]); return
            raise Give('step by another distance')
        if tx in ('i', 'form') and ty in ('d', 'dd') and o == '+': x, y, tx, ty = y, x, ty, tx
        if tx in ('d', 'dd') and o == '+' and self.num(y) == 1:
            yield s, ('dd', x[1], x[2], 1 + (x[3] if tx == 'dd' else 0)); return
        if tx == 'd' and o == '-' and self.num(y) == 1:
            for s1, q in self.step(('p', x[1]), s): yield s1, ('d', q[1], x[2])
            return
        if tx == 'd' and ty == 'dd' and o == '-' and x[1] == y[1]:
            for s1, q in self.op('+', [('p', x[1]), y], s): yield s1, ('d', q[1], x[2])
            return
        if tx == 'p' and o == '+' and ty == 'd':
            if y[1] != x[1]: raise Give('step by another distance')
            yield s, ('p', y[2]); return
        if tx == 'p' and o == '+' and self.num(y) == 1: yield from self.step(x, s); return
        if tx == 'p' and o == '-' and self.num(y) == 1: yield from self.back(x, s); return
        if tx == 'd':
            if ty == 'd' and o == '-':
                if x[1] == y[1]: yield s, ('d', y[2], x[2]); return
                if x[2] == y[2]: yield s, ('d', x[1], y[1]); return
            n = self.num(y)
            if n is not None and cmp:
                lo, ex = self.dist(x, s)
                if ex: yield s, {'==': lo == n, '!=': lo != n, '<': lo < n, '>': lo > n, '<=': lo <= n, '>=': lo >= n}[o]; return
                if lo > n: yield s, o in ('!=', '>', '>='); return
                if lo == n and o in ('<', '>='): yield s, o == '>='; return
                raise Give('comparison of a distance')
            if o == '/' and n == 2: yield from self.half(x, s); return
        if ty == 'd' and cmp and self.num(x) is not None:
            yield from self.op({'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(o, o), [y, x], s); return
        if x == MANY or y == MANY:
            nx, ny = self.num(x), self.num(y)
            if x == MANY and o == '/' and ny == 2: yield s, self.const(1); yield s, MANY; return
            if x == MANY and o == '-': yield s, self.const(1); yield s, MANY; return
            if o in ('*', '+'): yield s, MANY; return
            if x == MANY and cmp and ny in (0, 1): yield s, o in ('!=', '>', '>='); return
            raise Give('number')
        if tx == ty == 'i':
            if cmp: yield s, self.intcmp(o, x, y); return
            if o == '+': yield s, self.const(x[1] + y[1]); return
            if self.exact or x[1] < 3 and y[1] < 3:
                if o == '-': yield s, ('i', x[1] - y[1]); return
                if o == '*': yield s, self.const(x[1] * y[1]); return
                if o == '/' and y[1] > 0 and x[1] >= 0: yield s, ('i', x[1] // y[1]); return
        if tx == ty == 'form':
            if o in '+-' and len(o) == 1:
                c = 1 if o == '+' else -1
                yield s, form(x[1] + c * y[1], list(x[2]) + [(k, c * z) for k, z in y[2]]); return
            nx, ny = self.flat(x, s), self.flat(y, s)
            if nx is not None and ny is not None:
                if cmp: yield s, {'==': nx == ny, '!=': nx != ny, '<': nx < ny, '>': nx > ny, '<=': nx <= ny, '>=': nx >= ny}[o]; return
                if o == '*': yield s, form(nx * ny, ()); return
                if o == '/' and ny > 0 and nx >= 0: yield s, form(nx // ny, ()); return
        raise Give('operator %s' % o)

    def steps_of(self, v, s):
        if isinstance(v, bool): return int(v)
        if v[0] in ('d', 'dd'): return s.at(v[2]) - s.at(v[1]) + (v[3] if v[0] == 'dd' else 0)
        if v[0] == 'form': return self.flat(v, s)
        return self.num(v)

    def num(self, v):
        if isinstance(v, tuple) and v[0] == 'i': return v[1] if v[1] < 3 or self.exact else None
        if isinstance(v, tuple) and v[0] == 'form' and not v[2]: return v[1]
        return None

    def half(self, x, s):
        a, b = x[1], x[2]
        for h in s.halves:
            if h[:2] == (a, b): yield s, ('d', a, h[2]); return
        i, j = s.at(a), s.at(b)
        if i > j: raise Give('negative distance')

        def can(g, h):
            (x, ex), (y, ey) = ((sum(z[0] for z in w), all(z[0] == 1 for z in w)) for w in (g, h))
            if ex and ey: return x == (x + y) // 2
            if ex: return x + 1 >= y
            if ey: return y >= x
            return True
        for n in range(i, j + 1):
            if can(s.gaps[i:n], s.gaps[n:j]): yield St(s.order, s.gaps, s.halves + ((a, b, s.order[n]),), s.env), ('d', a, s.order[n])
            if n == j: break
            for parts in splits(s.gaps[n]):
                if can(s.gaps[i:n] + parts[:1], parts[1:] + s.gaps[n + 1:j]):
                    s2, m = s.split(n, parts)
                    yield St(s2.order, s2.gaps, s2.halves + ((a, b, m),), s2.env), ('d', a, m)

    def call(self, e, s, f):
        c, xs = e[1], e[2]
        if c[0] == 'parm' or c[0] in ('local', 'var'):
            for s0, fn in self.ev(c, s, f):
                if fn not in (('pred',), ('comp',), ('moc',)): raise Give('call')
                for s1, a in self.many(xs, s0, f):
                    if fn == ('comp',) and len(a) == 2: yield from self.less(a[0], a[1], s1)
                    elif fn == ('moc',) and len(a) == 2: yield from self.less(a[1], a[0], s1)
                    elif fn == ('pred',) and len(a) == 1 and isinstance(a[0], tuple) and a[0][0] == 'e': yield from self.elem(a[0][1], s1)
                    else: raise Give('arguments of the predicate')
            return
        if c[0] == 'lookup': q, ids = c[1].lstrip(':'), c[2]
        elif c[0] == 'func': q, ids = c[2], [c[1]]
        else: raise Give('call')
        for s1, a in self.many(xs, s, f): yield from self.named(q, ids, a, s1)

    def named(self, q, ids, a, s):
        if q in ('sprout::move', 'sprout::forward', 'std::move', 'std::forward') and len(a) == 1: yield s, a[0]; return
        if q in ('sprout::next', 'std::next') and a and isinstance(a[0], tuple) and a[0][0] == 'p':
            if len(a) == 1: yield from self.step(a[0], s)
            else: yield from self.op('+', a, s)
            return
        if q in ('sprout::prev', 'std::prev') and len(a) == 1 and isinstance(a[0], tuple) and a[0][0] == 'p': yield from self.back(a[0], s); return
        if q in ('sprout::distance', 'std::distance') and len(a) == 2: yield s, ('d', a[0][1], a[1][1]); return
        if q in ('sprout::make_pair', 'sprout::pair') and len(a) == 2: yield s, ('pair',) + tuple(a); return
        ds = [self.U.byid[i] for i in ids if i in self.U.byid]
        ds = [d for d in ds if d.get('t') == 'fn' and 'body' in d and arity_ok(d, len(a))]
        if len(a) > 1 and a[-1] == ('tag',):
            t = [d for d in ds if self.tag in d['params'][-1][3]]
            ds = t or ds
        if len(ds) > 1:
            # by shape: a pair parameter takes a pair
            def fits(d): return all((isinstance(v, tuple) and v[0] == 'pair') == ('sprout::pair<' in p[3]) for p, v in zip(d['params'], a))
            ds = [d for d in ds if fits(d)]
        if len(ds) != 1: raise Give('which %s is called' % q)
        d = ds[0]
        if any(v == ('tag',) for v in a): a = [v for v in a if v != ('tag',)] + [('tag',)]
        yield from self.invoke(d, a, s)

    tag = 'random_access'

    def invoke(self, d, a, s):
        refs = set()
        for v in a:
            if not (isinstance(v, tuple) and v[0] == 'form'): posin(self.noform(v), refs)
        if not refs: raise Give('no range')
        ix = [s.at(p) for p in refs]
        # places the statement speaks about stay known
        marks = {v[1] for n, v in s.env.items() if isinstance(n, tuple) and n[0] == 'G' and min(ix) < s.at(v[1]) < max(ix)}
        refs |= marks
        if self.exact: refs |= set(s.order)
        order = [p for p in s.order if p in refs]
        if len(order) != len(refs): raise Give('a position of another range')
        ix = {p: i for i, p in enumerate(order)}
        gaps = tuple(join(s.gaps[s.at(x):s.at(y)]) for x, y in zip(order, order[1:]))
        back = {}

        def arg(v, top=True):
            if isinstance(v, tuple) and v[0] == 'form':
                n = self.flat(v, s)
                if top and n is not None: return MANY if n >= 2 and not self.exact else form(n, ())
                k = ('B', len(back)); back[k] = v
                return form(0, [(k, 1)])
            if isinstance(v, tuple) and v[0] == 'i' and top and v[1] >= 2 and not self.exact: return MANY
            if isinstance(v, tuple) and v[0] == 'pair': return ('pair',) + tuple(arg(x, False) for x in v[1:])
            if isinstance(v, tuple) and v[0] == 'dd': raise Give('hands on a changed distance')
            return mapv(v, lambda p: ix[p])
        key = (d['id'], tuple(arg(v) for v in a), gaps, tuple(sorted(ix[m] for m in marks)))
        if key not in self.res:
            self.res[key] = frozenset()
            self.todo.append(key); self.queued.add(key)
            if len(self.res) > self.limit: raise Give('too many abstract calls')
        self.users.setdefault(key, set()).add(self.cur)
        for g2, idx, v in self.res[key]:
            # the parts the result divides the range into, between the positions handed over
            yield from self.fill(s, order, g2, idx, v, back)

    def noform(self, v):
        if isinstance(v, tuple) and v[0] == 'form': return None
        if isinstance(v, tuple) and v[0] == 'pair': return ('pair',) + tuple(self.noform(x) for x in v[1:])
        return v

    def fill(self, s, order, g2, idx, v, back):
        def go(k, s, m):
            if k == len(order):
                def f(i): return m[i]
                w = mapv(v, f)
                if back:
                    w = mapform(w, lambda fm: form(fm[1] + sum(c * back[kk][1] for kk, c in fm[2] if kk in back),
                                                   [(kk, c) for kk, c in fm[2] if kk not in back] + [(k2, c * c2) for kk, c in fm[2] if kk in back for k2, c2 in back[kk][2]]))
                yield s, w
                return
            m = dict(m); m[idx[k]] = order[k]
            if k + 1 == len(order):
                yield from go(k + 1, s, m); return
            B = g2[idx[k]:idx[k + 1]]
            i, j = s.at(order[k]), s.at(order[k + 1])
            A = s.gaps[i:j]
            if len(B) == 1: yield from go(k + 1, s, m); return
            for r in common(A, B):
                s2, m2 = s, dict(m)
                o, g = [], []
                ai, bi, nxt = i, idx[k], max(s.order) + 1
                for x, ea, eb in r[:-1]:
                    if ea: ai += 1; p = s.order[ai]
                    else: p = nxt; nxt += 1
                    if eb: bi += 1; m2[bi] = p
                    o.append(p)
                s2 = St(s.order[:i + 1] + tuple(o) + s.order[j:], s.gaps[:i] + tuple(x for x, _, _ in r) + s.gaps[j:], s.halves, s.env)
                yield from go(k + 1, s2, m2)
        yield from go(0, s, {})
