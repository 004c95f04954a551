"""Walking helpers over the dumped syntax trees."""

def walk(x):
    """every node (list with a string head) below x, pre-order"""
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, list):
            if y and isinstance(y[0], str):
                yield y
            st.extend(reversed(y))


def roots(f):
    for i in f.get('inits', ()):
        yield i[3]
    if 'body' in f:
        yield f['body']


def nodes(f):
    for r in roots(f):
        yield from walk(r)


def arity_ok(d, n, has_pack=False):
    ps = d.get('params', [])
    lo = sum(1 for p in ps if not p[4] and not p[5])
    hi = 10**9 if d.get('variadic') or any(p[5] for p in ps) else len(ps)
    if has_pack:
        return n - 1 <= hi
    return lo <= n <= hi


def has_pack(args):
    return any(isinstance(a, list) and a and a[0] == 'pack' for a in args)


def callee_line(n):
    for v in reversed(n):
        if isinstance(v, int):
            return v
    return 0


class Site:
    __slots__ = ('kind', 'cands', 'adl', 'args', 'node', 'line', 'name', 'obj', 'resolved')

    def __init__(self, kind, cands, adl, args, node, line, name, obj=None, resolved=False):
        self.kind, self.cands, self.adl, self.args, self.node, self.line, self.name, self.obj, self.resolved = kind, cands, adl, args, node, line, name, obj, resolved


def sites(f_or_node):
    """call sites; cands = ids of the candidates (one when resolved), [] when unknown"""
    it = nodes(f_or_node) if isinstance(f_or_node, dict) else walk(f_or_node)
    for n in it:
        k = n[0]
        if k == 'call':
            c, args = n[1], n[2]
            ln = n[3] if len(n) > 3 else 0
            if not isinstance(c, list) or not c:
                continue
            if c[0] == 'func':
                yield Site('call', [c[1]], False, args, n, ln, c[2], resolved=True)
            elif c[0] == 'lookup':
                yield Site('call', c[2], bool(c[3]), args, n, ln, c[1])
            elif c[0] == 'umember':
                yield Site('mcall', c[4], False, args, n, ln, c[2], c[1])
            elif c[0] == 'member':
                yield Site('mcall', [c[4]], False, args, n, ln, c[2], c[1], True)
            elif c[0] == 'dmember':
                yield Site('dmcall', [], False, args, n, ln, c[2], c[1])
            elif c[0] == 'dsref':
                yield Site('dscall', [], False, args, n, ln, c[1] + c[2])
            else:
                yield Site('indirect', [], False, args, n, ln, c[0], c)
        elif k == 'mcall':
            c = n[1]
            obj = c[1] if isinstance(c, list) and len(c) > 1 and isinstance(c[1], list) else None
            yield Site('mcall', [n[2]] if n[2] else [], False, n[3], n, n[4], c[2] if len(c) > 2 and isinstance(c[2], str) else '', obj, bool(n[2]))
        elif k == 'opcall':
            cs = n[2]
            if isinstance(cs, int):
                yield Site('op', [cs] if cs else [], False, n[3], n, n[4], 'operator' + n[1], resolved=bool(cs))
            else:
                yield Site('op', cs, True, n[3], n, n[4], 'operator' + n[1])
        elif k == 'ctor':
            yield Site('ctor', [n[3]], False, n[4], n, n[8], n[1], resolved=True)
        elif k == 'udl':
            yield Site('call', [n[1]] if n[1] else [], False, n[2], n, 0, 'udl', resolved=bool(n[1]))


def loc(f, line=None):
    return '%s:%s' % (f['file'], line or f['line'])


def sig(f):
    return '%s(%s)%s' % (f['q'], ', '.join(p[3] + ('...' if p[5] else '') for p in f.get('params', ())), ' const' if f.get('const') else '')
