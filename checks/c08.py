"""C08: copying, moving, assigning and swapping treat every member of an object."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import tu, obj
from ir import loc, walk
from terms import Give
from check import main
from obj import Cell, Obj, Ptr, Thrown, Lin, at, num, same, show, bare, clsname, Interp, Index, copyv

obj.ARRS = True
# class -> (flag, members without meaning while it is not set)
IDLE = {'sprout::optional': ('init', ('val',))}
NOFIELD = re.compile(r'allocator|mutex')


# assignment goes to what the proxy stands for
THROUGH = {'sprout::bitset::reference::operator=', 'sprout::bitset::reference::reference::operator='}


COPY = {'sprout::copy', 'sprout::move', 'std::copy', 'std::move', 'sprout::swap_ranges', 'std::swap_ranges', 'sprout::copy_n'}


def nested(C, rec, k):
    """records of that last name declared within the class"""
    if not hasattr(C, 'last'):
        C.last = {}
        for n in C.recs: C.last.setdefault(n.split('::')[-1], []).append(n)
    return [q for n in C.last.get(k.split('::')[-1], ()) for q in C.recs[n] if n.startswith(bare(rec['q']) + '::')]


def inner(C, rec, cty):
    """the record of a member whose class is declared within the class, or is its implementation"""
    if not hasattr(C, 'innermemo'): C.innermemo = {}
    m = (rec['id'], cty)
    if m not in C.innermemo:
        k = clsname(cty) or re.sub(r'^(typename|struct|class) ', '', bare(cty)).strip()
        r = nested(C, rec, k)
        if not r and k.startswith('sprout::detail::') and k.endswith('_impl') or not r and k.startswith('sprout::') and '<' not in cty: r = C.recs.get(k, [])
        C.innermemo[m] = r[0] if len(r) == 1 and fields(C, r[0]) else None
    return C.innermemo[m]


class Ex(Interp):
    """copies and exchanges of element ranges change the contents of the member array as a whole; content: what an array holds now"""
    def reset(self):
        self.arrs, self.content, self.rv = set(), {}, {}

    def new(self, rec, name):
        f = {}
        o = Obj(rec, f, name)
        for r in self.C.bases(rec):
            for x in r['fields']:
                sub = inner(self.C, rec, x[3])
                if sub is not None: f[x[0]] = Cell(self.new(sub, name + '.' + x[0])); continue
                v = self.symval(name + '.' + x[0], x[3])
                if x[3].rstrip().endswith(']') and isinstance(v, Lin): self.arrs.add(v.atom())
                f[x[0]] = Cell(v)
        return o

    def run(self, d, cells, this=None):
        self.rv.clear()
        return Interp.run(self, d, cells, this)

    def pointer(self, v):
        return isinstance(v, Lin) and any(k == 1 and len(m) == 1 and (m[0] in self.arrs or m[0][0] == 'pos') for m, k in v.t.items())

    def fits(self, d, cells, this=None):
        s = Interp.fits(self, d, cells, this)
        if s is None: return None
        for p, c in zip(d['params'], cells):
            t = re.sub(r'^const |[ &]+$', '', p[3])
            if self.pointer(self.load(c.v)):
                if p[3].rstrip().endswith('*'): s += 3
                elif obj.INTEGRAL.match(t) or t == 'type-parameter-0-0' or 'initializer_list' in t: return None
            elif p[3].rstrip().endswith('*') and isinstance(c.v, Lin): s -= 2
            # the function's own type before conversions, the rvalue reference for what was moved or forwarded
            if isinstance(c.v, Obj) and clsname(p[3]):
                if 'type-parameter-1' not in p[3]: s += 0.5
                s += 0.25 if p[3].rstrip().endswith('&&') == (id(c) in self.rv) else 0
                s += 0.1 if not re.search(r'\bconst\b *&?$|^const ', p[3]) else 0
        return s

    def place(self, v):
        """where an iterator points: (member array, offset)"""
        v = self.load(v)
        if isinstance(v, Ptr): raise Give('pointer')
        c = self.deref(v)
        a = c.v.atom() if isinstance(c.v, Lin) else None
        if a is None or a[0] != 'deref': raise Give('where an iterator points')
        L = Lin(dict(a[1][1:]))
        bs = [m for m, k in L.t.items() if len(m) == 1 and m[0] in self.arrs and k == 1]
        if len(bs) != 1: raise Give('where an iterator points')
        return bs[0][0], L - Lin({bs[0]: 1})

    def transfer(self, first, last, n, dest, swap=False):
        A, lo = self.place(first)
        if last is not None:
            B, hi = self.place(last)
            if A != B: raise Give('range of two arrays')
        else: hi = lo + n
        D, do = self.place(dest)
        for x in (A, D):
            if x in self.content: raise Give('elements copied twice')
        self.content[D] = ('region', A, lo, hi, do)
        if swap: self.content[A] = ('region', D, do, do + hi - lo, lo)

    def named(self, q, targs, cands, cells, adl=False, fr=None):
        if q in COPY and len(cells) == 3:
            v = [self.load(c.v) for c in cells]
            if all(isinstance(x, Lin) for x in v):
                if q == 'sprout::copy_n': self.transfer(v[0], None, v[1], v[2])
                else: self.transfer(v[0], v[1], None, v[2], q.endswith('swap_ranges'))
                return None
        if q == 'sprout::get' and len(cells) == 1 and isinstance(cells[0].v, Lin): return cells[0]
        if len(cells) == 1 and q in obj.FORWARD: self.rv[id(cells[0])] = cells[0]
        return Interp.named(self, q, targs, cands, cells, adl, fr)

    def dependent(self, q, name, targs, cells):
        k = bare(q.rstrip(':').rstrip()).split('::')[-1]
        nested(self.C, {'q': ''}, '')
        own = [r for n in self.C.last.get(k, ()) for r in self.C.recs[n]]
        if len(own) == 1 and cells:
            ms = [d for d in self.C.method(own[0], name) if d.get('static') and 'body' in d]
            if ms:
                d = self.pick(ms, cells)
                if d is not None: return self.run(d, cells)
        if name in ('copy', 'move') and len(cells) == 3 and re.search(r'[Tt]raits', q):
            v = [self.load(c.v) for c in cells]
            if all(isinstance(x, Lin) for x in v):
                self.transfer(v[1], None, v[2], v[0])
                return None
        if name == 'assign' and len(cells) == 3 and re.search(r'[Tt]raits', q):
            D, do = self.place(cells[0].v)
            c = self.content.get(D)
            if c is not None and not self.facts.ge0(do - c[4] - c[3] + c[2]): raise Give('elements written after they were copied')
            return None
        return Interp.dependent(self, q, name, targs, cells)

    def method(self, cell, name, cells, cands=None):
        o = cell.v.cell if isinstance(cell.v, Ptr) else cell
        if name == 'swap' and len(cells) == 1 and isinstance(o.v, Lin) and isinstance(cells[0].v, Lin):
            o.v, cells[0].v = cells[0].v, o.v
            return None
        return Interp.method(self, cell, name, cells, cands)

    def sizeof(self, rec, c, m='size'):
        if not self.C.method(rec, m): return None
        try: r = self.method(c, m, [])
        except Give: return None
        v = self.load(r.v) if r is not None else None
        return v if isinstance(v, Lin) else None


def fields(C, rec):
    return [x for r in C.bases(rec) for x in r['fields']]


def self_whole(n, ret=False):
    """*this is handed on as a whole"""
    if not isinstance(n, list): return False
    if n and n[0] == 'un' and len(n) > 2 and n[1] == '*' and isinstance(n[2], list) and n[2][:1] == ['this']: return not ret
    if n and n[0] in ('dmember', 'member', 'umember'): return any(self_whole(x, True) if i == 1 else self_whole(x) for i, x in enumerate(n))
    return any(self_whole(x, bool(n) and n[0] == 'ret') for x in n)


def parts(C, rec):
    """member -> the members it consists of, where its class is declared within the class"""
    r = {}
    for x in fields(C, rec):
        sub = next(iter(nested(C, rec, bare(clsname(x[3]) or re.sub(r'^(typename|struct|class) ', '', bare(x[3])).strip()))), None)
        r[x[0]] = [(y[0], y[3]) for y in fields(C, sub)] if sub is not None and fields(C, sub) else [(x[0], x[3])]
    return r


def mentions(U, C, rec, d):
    """the members (and members of members) that the function names, itself or through the members it calls; whether it hands on an object as a whole"""
    pt = parts(C, rec)
    names = set(pt) | {y for v in pt.values() for y, _ in v}
    arrays = {y for v in pt.values() for y, t in v if '[' in t}
    seen, out, todo = set(), set(), [d]
    whole = False
    inpart = set()      # members that are reached into

    def name(n):
        if n[0] in ('dmember', 'member', 'umember'): return n[2]
        if n[0] == 'field': return n[2] if len(n) > 2 else None

    def into(n):
        if not isinstance(n, list): return
        if n and n[0] in ('dmember', 'member', 'umember', 'index', 'opcall', 'mcall', 'un'):
            for x in n[1:]:
                for y in x if isinstance(x, list) and x and isinstance(x[0], list) else [x]:
                    if isinstance(y, list) and y and y[0] in ('dmember', 'member', 'umember') and y[2] in names and not (n[0] == 'opcall' and n[1] == '='): inpart.add(y[2])
        if n and n[0] == 'call' and not (isinstance(n[1], list) and n[1][0] in ('lookup', 'func') and str(n[1][1 if n[1][0] == 'lookup' else 2]).split('::')[-1] in ('swap', 'move', 'forward', 'exchange', 'addressof')):
            for y in n[2]:
                if isinstance(y, list) and y and y[0] in ('dmember', 'member', 'umember') and y[2] in names: inpart.add(y[2])
        if n and n[0] == 'ret' and isinstance(n[1], list):
            y = n[1]
            while y[0] in ('icast', 'cast', 'bin') or y[0] == 'uctor' and len(y[3]) == 1: y = y[2] if y[0] == 'bin' else y[4] if y[0] == 'cast' else (y[3][0] if y[0] == 'uctor' else y[3])
            if y[0] in ('dmember', 'member', 'umember') and y[2] in arrays: inpart.add(y[2])
        for x in n: into(x)

    def scan(n, inner=False):
        """names met; a member used as a whole stands for its parts"""
        if not isinstance(n, list): return
        mem = n and n[0] in ('dmember', 'member', 'umember', 'field')
        for i, x in enumerate(n):
            if isinstance(x, str):
                if x in names:
                    out.add(x)
                    if not inner and x in pt: out.update(y for y, _ in pt[x])
                for m in C.method(rec, x):
                    if 'body' in m and m['id'] not in seen: todo.append(m)
            elif isinstance(x, list):
                scan(x, bool(mem) and i == 1)
            g = U.byid.get(x) if not isinstance(x, list) else None
            if g is not None and g.get('t') == 'fn' and g.get('cls') and bare(g.get('clsq', '')) == bare(rec['q']) and 'body' in g: todo.append(g)
            if g is not None and g.get('t') == 'field' and g.get('name') in names:
                out.add(g['name'])
                if not inner and g['name'] in pt: out.update(y for y, _ in pt[g['name']])
    while todo:
        f = todo.pop()
        if f['id'] in seen: continue
        seen.add(f['id'])
        scan(f.get('body'))
        into(f.get('body'))
        for i in f.get('inits', ()):
            scan(i[3])
            if i[0] == 'm': out.update([i[1]] + [y for y, _ in pt.get(i[1], ())])
            elif i[0] == 'd': whole = True
        if self_whole(f.get('body')):
            if f is d or f['params']: whole = True
            else:
                out.update(arrays); inpart.update(arrays)
    return out, whole, pt, inpart


def check(R, tier):
    R.rule('For every class, its swap (member and free), its copy and move constructors, and its assignments from an object of the same class template that are written out, are interpreted over two objects in arbitrary states. '
           'Required: after a.swap(b) and swap(a, b) each member of a has the value b had and the reverse; after construction from x and after a = x each member has the value it has in x; assignments return the object. '
           'Where the body is not interpreted (element loops), it must at least name every member of the class, itself or through the members it calls.')
    R.assume += ['Copies of a member equal the member (the copy semantics of user types).', 'Defaulted and implicit copies are right by the language.']
    for un, U in tu.header_units(('portable17', 'pointer17')).items():
        C = Index(U)
        for f in U.fns:
            if 'body' not in f or f.get('inst') or f.get('deleted') or f.get('defaulted') or not f['file'].startswith('sprout/'): continue
            ps = f['params']
            kind = None
            if f['name'] == 'swap' and f['kind'] == 'method' and len(ps) == 1: kind, k = 'swap', clsname(ps[0][3])
            elif f['name'] == 'swap' and f['kind'] == 'fn' and len(ps) == 2: kind, k = 'freeswap', clsname(ps[0][3])
            elif f['name'] == 'operator=' and f['kind'] == 'method' and len(ps) == 1: kind, k = 'assign', clsname(ps[0][3])
            elif f['kind'] == 'ctor' and len(ps) == 1: kind, k = 'ctor', clsname(ps[0][3])
            if kind == 'assign' and (f.get('const') or f['q'] in THROUGH): continue
            if bare(f['q']) == 'sprout::detail::compressed_pair_impl::swap' and ps[0][0] in ('', '_', None): continue       # both parts are empty classes
            if not kind or k is None or k not in C.recs: continue
            if kind != 'freeswap':
                rec = U.byid.get(f['cls'])
                if rec is None or bare(rec['q']) != k: continue
            else:
                if clsname(ps[1][3]) != k: continue
                rec = C.rec(k, f)
            if rec is None: continue
            other = rec
            fs = fields(C, rec)
            if not fs or any(NOFIELD.search(x[3]) for x in fs): continue
            # partially different classes of one template (subrange<A> from subrange<B>) have the same members; specialisations need not
            if kind in ('assign', 'ctor') and len(C.recs[k]) > 1 and ps[0][3].replace('const ', '').rstrip('& ') != rec['q']:
                o = C.rec(k, f)
                if o is not rec and [x[0] for x in fields(C, o or rec)] != [x[0] for x in fs]: continue
            one(R, U, C, un, kind, rec, f)
    R.floor('functions', 350)


def pairs(I, g, w, n, need):
    """(verdict, value found, member): member by member, element arrays by what they hold"""
    if isinstance(g, Obj) and isinstance(w, Obj) and len(g.f) == len(w.f) and (g.c is w.c):
        for i in g.f: yield from pairs(I, g.f[i].v, w.f[i].v, '%s.%s' % (n, i), need)
        return
    a = g.atom() if isinstance(g, Lin) else None
    c = I.content.get(a)
    if c is None or not isinstance(w, Lin):
        if a in I.arrs and isinstance(w, Lin) and w.atom() in I.arrs and not same(I, g, w) == 'eq': yield 'ne', g, n
        else: yield same(I, g, w), g, n
        return
    _, src, lo, hi, do = c
    if src != w.atom(): yield 'ne', at(src), n
    elif not I.facts.eq0(lo - do) or not I.facts.eq0(do): yield 'bad', 'shifted: from element %s to element %s' % (show(lo), show(do)), n
    elif not need: yield 'unk', g, n
    elif all(I.facts.ge0(hi - x) for x in need): yield 'eq', g, n
    else: yield 'bad', 'copied up to element %s only' % show(hi), n


def one(R, U, C, un, kind, rec, f):
    fs = fields(C, rec)
    I = Ex(U, C)
    key = '%s %s' % (f['q'], kind)
    named, whole, pt, inpart = mentions(U, C, rec, f)
    st = {'bad': None, 'unk': None, 'n': 0}

    def judge(I, w, s, g, n, src):
        if s == 'bad': st['bad'] = st['bad'] or '%s.%s is %s' % (w, n, g); return
        atom = g.atom() if isinstance(g, Lin) else None
        # the value of a member that is not copied as a whole: its own, that of another member, a constant or a fresh one
        plain = isinstance(g, Lin) and all(x[0] in ('f', 'bool', 'uninit') or x[0] == 'new' and len(x) == 2 for m in g.t for x in m)
        if plain and atom not in I.arrs and atom == ('f', '%s.%s' % (w, n)) and n.split('.')[-1] in inpart: plain = False      # it may be changed part by part
        if s == 'ne' and plain and not I.facts.opaque: st['bad'] = st['bad'] or '%s.%s is %s, not the %s of %s' % (w, n, show(g), n, src)
        elif s != 'eq': st['unk'] = st['unk'] or '%s.%s is %s' % (w, n, show(g))

    def go(I):
        I.reset()
        a, b = Cell(I.new(rec, 'a')), Cell(I.new(rec, 'b'))
        size = {}
        for w, c in (('a', a), ('b', b)):
            if not I.arrs: continue
            size[w] = I.sizeof(rec, c)
            cap = I.sizeof(rec, c, 'max_size')
            if size[w] is not None and cap is not None: I.facts.assume_ge(cap - size[w])
            if size[w] is not None: I.facts.assume_ge(size[w])
        a0, b0 = copyv(a.v), copyv(b.v)
        r = None
        try:
            if kind == 'swap': I.run(f, [b], a)
            elif kind == 'freeswap': I.run(f, [a, b])
            elif kind == 'assign': r = I.run(f, [b], a)
            else: a.v = I.construct(rec, [b], f['id'])
        except Thrown: return
        st['n'] += 1
        for x in fs:
            n = x[0]
            if bare(rec['q']) in IDLE and n in IDLE[bare(rec['q'])][1]:
                # the member means something only while the flag is set
                flag = [w.f.get(IDLE[bare(rec['q'])][0]) for w in (a0, b0)[0 if 'swap' in kind else 1:]]
                if all(c is not None and not I.truth(c.v) for c in flag): continue
            todo = [('a', a, b0, 'b')]
            if 'swap' in kind: todo.append(('b', b, a0, 'a'))
            for w, got, want, src in todo:
                if not isinstance(got.v, Obj) or n not in got.v.f: raise Give('the object')
                need = [size.get('b')] + ([size.get('a')] if 'swap' in kind else [])
                d = re.search(r'\[(\w+)\]$', x[3].strip())
                if None in need: need = [I.tp(d.group(1))] if d and not d.group(1).isdigit() else [num(int(d.group(1)))] if d else [None]
                for s, g, m in pairs(I, got.v.f[n].v, want.f[n].v, n, None if None in need else need): judge(I, w, s, g, m, src)
        if kind == 'assign' and (f.get('cret') or '').strip().endswith('&'):
            if r is None or r is not a: st['bad'] = st['bad'] or 'the result is not the object assigned to'
    what = {'swap': 'a.swap(b)', 'freeswap': 'swap(a, b)', 'assign': 'a = b', 'ctor': 'constructing a from b'}[kind]
    R.count('functions')
    try:
        I.cases(go)
        why = st['unk'] or (None if st['n'] else 'no case')
    except Give as x: why = str(x)
    except Thrown: why = 'throws'
    if st['bad']:
        R.bad(key, '%s: %s: after %s %s' % (loc(f), rec['q'], what, st['bad'])); return
    if why is None:
        R.ok(); R.count('interpreted'); R.sample('%s %s' % (rec['q'], what)); return
    if kind == 'freeswap':
        R.undecided('%s %s: %s' % (rec['q'], what, why)); return
    miss = [] if whole else [x[0] if y == x[0] else '%s.%s' % (x[0], y) for x in fs for y, _ in pt[x[0]] if y not in named]
    if kind == 'ctor':
        def param(n): return isinstance(n, list) and (n[:1] == ['parm'] or any(param(x) for x in n))
        mi = {i[1]: i[3] for i in f.get('inits', ()) if i[0] == 'm'}
        own = [x[0] for x in rec['fields']]
        body = set()
        def w(n):
            if isinstance(n, list):
                for x in n: w(x)
            elif isinstance(n, str): body.add(n)
        w(f.get('body'))
        miss = [] if any(i[0] == 'd' for i in f.get('inits', ())) else [n for n in own if n not in body and not param(mi.get(n))]
    if miss:
        R.bad(key, '%s: %s: %s does not treat the member %s' % (loc(f), rec['q'], what, ', '.join(miss)))
    else:
        R.undecided('%s %s: %s' % (rec['q'], what, why)); R.count('members all named')


if __name__ == '__main__':
    sys.exit(main('C08', check))
