"""Herbrand value numbering of function bodies: each expression becomes a canonical term over the parameters; locals and
single-exit control flow are substituted away, forwarding wrappers vanish, small helper functions are inlined.

Terms are tuples: ('p',i) parameter, ('this',), ('lit',kind,val), ('call',qname,targs,args), ('m',name,obj,args) member call,
('f',name,obj) data member, ('op',o,args), ('new',type,args), ('cond',c,a,b), ('ds',qual,name,targs,args|None), ('apply',fn,args),
('idx',a,i), ('cast',type,x), ('throw',x), ('pack',x), ('il',args), ('unk',why)."""
import re
from ir import arity_ok, has_pack

FORWARD = {'sprout::forward', 'sprout::move', 'sprout::as_const', 'sprout::as_lvalue', 'sprout::lvalue_forward', 'std::forward', 'std::move',
           'sprout::detail::move', 'sprout::detail::forward', 'sprout::as_rvalue', 'sprout::utility::forward'}


class Give(Exception):
    pass


class TooBig(Exception):
    pass


def strip(q):
    q = q.lstrip(':')
    return q


class Evaluator:
    def __init__(self, U, inline=lambda d, depth: False, maxdepth=6, maxnodes=4000):
        self.U = U
        self.inline = inline
        self.maxdepth = maxdepth
        self.maxnodes = maxnodes
        self.n = 0
        self.sz = {}
        self.keep = []
        self.maxsize = 3000

    def size(self, t):
        if not isinstance(t, tuple):
            return 1
        i = id(t)
        r = self.sz.get(i)
        if r is None:
            r = 1
            for x in t:
                r += self.size(x)
            self.sz[i] = r
            self.keep.append(t)
            if r > self.maxsize:
                raise TooBig()
        return r

    # ---- entry
    def function(self, f):
        """-> outcome tree of f's body over its own parameters"""
        self.n = 0
        self.sz = {}
        self.keep = []
        env = {}
        for i, p in enumerate(f['params']):
            env[('P', p[1])] = ('p', i)
        return self.body(f, env, ('this',), 0)

    def body(self, f, env, this, depth):
        if 'body' not in f:
            raise Give('no body')
        st = State(env, this, depth)
        return self.block(f['body'], st, None)

    # ---- statements: continuation passing; k is the list of remaining statements (linked)
    def block(self, s, st, k):
        self.n += 1
        if self.n > self.maxnodes:
            raise TooBig()
        while True:
            if s is None:
                if k is None:
                    return ('fall', st.freeze())
                s, k = k
                continue
            t = s[0]
            if t == 'block':
                for x in reversed(s[1]):
                    k = (x, k)
                s = None
                continue
            if t == 'ret':
                v = self.e(s[1], st) if s[1] is not None else ('void',)
                return ('ret', v, st.freeze())
            if t == 'expr':
                self.effect(s[1], st)
                s = None
                continue
            if t == 'decl':
                for d in s[1]:
                    if len(d) > 5 and d[5]:
                        raise Give('static local')
                    st.env[('L', d[0])] = self.e(d[4], st, ref='&' in d[3]) if d[4] is not None else ('unset', d[1])
                s = None
                continue
            if t == 'if':
                c = self.e(s[1], st)
                a = self.block(s[2], st.copy(), k)
                b = self.block(s[3], st.copy(), k)
                return ('cond', c, a, b)
            if t == 'nop':
                s = None
                continue
            raise Give('statement ' + str(t) + (' ' + str(s[1]) if t == '?' else ''))

    def effect(self, e, st):
        k = e[0]
        if k == 'bin' and e[1] == '=':
            self.assign(e[2], self.e(e[3], st), st); return
        if k == 'bin' and e[1].endswith('=') and e[1] not in ('==', '!=', '<=', '>='):
            l = self.e(e[2], st)
            self.assign(e[2], ('op', e[1][:-1], (l, self.e(e[3], st))), st); return
        if k == 'opcall' and e[1] == '=' and len(e[3]) == 2:
            self.assign(e[3][0], self.e(e[3][1], st), st); return
        if k == 'opcall' and e[1].endswith('=') and e[1] not in ('==', '!=', '<=', '>=') and len(e[3]) == 2:
            l = self.e(e[3][0], st)
            self.assign(e[3][0], ('op', e[1][:-1], (l, self.e(e[3][1], st))), st); return
        if k == 'un' and e[1] in ('++', '--', 'post++', 'post--'):
            l = self.e(e[2], st)
            self.assign(e[2], ('op', e[1][-1], (l, ('lit', 'int', '1'))), st); return
        if k == 'opcall' and e[1] in ('++', '--'):
            l = self.e(e[3][0], st)
            self.assign(e[3][0], ('op', e[1][-1], (l, ('lit', 'int', '1'))), st); return
        if k == 'bin' and e[1] == ',':
            self.effect(e[2], st); self.effect(e[3], st); return
        if k == 'opcall' and e[1] == ',':
            self.effect(e[3][0], st); self.effect(e[3][1], st); return
        if k == 'cast' and e[2] == 'void':
            v = self.e(e[4], st)
            if v[0] in ('call', 'm', 'apply', 'unk'):
                st.eff.append(v)
            return
        if k == 'cond':
            raise Give('conditional effect')
        v = self.e(e, st)
        if v[0] in ('call', 'm', 'apply', 'ds', 'throw', 'new', 'op'):
            if v[0] == 'op' and v[1] not in ('<<', '>>', '++', '--'):
                return
            st.eff.append(v)

    def lv(self, e, st):
        k = e[0]
        if k == 'local':
            return ('L', e[1])
        if k == 'parm':
            return ('P', e[1])
        if k in ('member', 'dmember', 'umember'):
            o = self.e(e[1], st)
            return ('f', e[2], o)
        return self.e(e, st)

    def assign(self, lhs, val, st):
        while lhs[0] in ('icast',):
            lhs = lhs[3]
        l = self.lv(lhs, st)
        if l[0] in ('L', 'P'):
            cur = st.env.get(l)
            if cur is not None and cur[0] == 'ref':
                l = cur[1]
            elif l[0] == 'P' and cur is not None and cur[0] == 'p' and st.depth == 0 and l in st.refparms:
                st.store[cur] = val; return
            else:
                st.env[l] = val; return
        st.store[l] = val
        st.order.append(l)

    # ---- expressions
    def args(self, xs, st):
        return tuple(self.e(x, st) for x in xs)

    def e(self, e, st, ref=False):
        r = self.e1(e, st)
        self.size(r)
        return r

    def e1(self, e, st):
        self.n += 1
        if self.n > self.maxnodes:
            raise TooBig()
        k = e[0]
        if k == 'parm':
            v = st.env.get(('P', e[1]))
            if v is None:
                return ('unk', 'outer parameter ' + e[2])
            return st.store.get(v, v) if v[0] in ('p',) else v
        if k == 'local':
            return st.env.get(('L', e[1]), ('unk', 'local ' + e[2]))
        if k == 'this':
            return st.this
        if k in ('member', 'dmember', 'umember'):
            o = self.e(e[1], st)
            if k == 'member' and e[4] in self.U.byid and self.U.byid[e[4]]['t'] in ('var', 'xdecl') and 'dk' not in self.U.byid[e[4]]:
                return ('var', self.U.byid[e[4]]['q'])
            l = ('f', e[2], o)
            return st.store.get(l, l)
        if k == 'int':
            return ('lit', 'int', e[1])
        if k == 'bool':
            return ('lit', 'bool', str(e[1]))
        if k == 'float':
            return ('lit', 'float', e[1])
        if k == 'char':
            return ('lit', 'char', str(e[1]))
        if k == 'str':
            return ('lit', 'str', e[1])
        if k == 'null':
            return ('lit', 'null', '')
        if k == 'enumc':
            return ('lit', 'enum', e[2])
        if k == 'nttp':
            return ('tp', e[2])
        if k == 'var':
            return ('var', e[2])
        if k == 'func':
            return ('fn', e[2])
        if k == 'lookup':
            return ('fn', strip(e[1]))
        if k == 'icast':
            x = self.e(e[3], st)
            if x[0] == 'lit' and x[1] == 'int' and e[1] == 'IntegralCast':
                return x
            if e[1] in ('DerivedToBase', 'UncheckedDerivedToBase', 'ArrayToPointerDecay', 'NullToPointer', 'IntegralCast', 'LValueToRValue', 'PointerToBoolean', 'IntegralToBoolean'):
                return x
            return ('cast', e[2], x)
        if k == 'cast':
            x = self.e(e[4], st)
            if e[5] in ('NoOp', 'ToVoid', 'DerivedToBase', 'UncheckedDerivedToBase', 'ConstructorConversion', 'LValueToRValue') or e[3].endswith('&') or e[3].endswith('&&'):
                return x
            if e[1] == 'func' and x[0] == 'new':
                return x
            return ('cast', e[3], x)
        if k == 'defarg':
            return self.e(e[1], st)
        if k == 'cond':
            return ('cond', self.e(e[1], st), self.e(e[2], st), self.e(e[3], st))
        if k == 'bin':
            o = e[1]
            if o == '=' or (o.endswith('=') and o not in ('==', '!=', '<=', '>=')):
                self.effect(e, st)
                return self.e(e[2], st)
            if o == ',':
                self.effect(e[2], st)
                return self.e(e[3], st)
            if o in ('&&', '||'):
                a = self.e(e[2], st)
                n0 = len(st.eff)
                b = self.e(e[3], st)
                return ('op', o, (a, b))
            return ('op', o, (self.e(e[2], st), self.e(e[3], st)))
        if k == 'un':
            o = e[1]
            if o in ('++', '--'):
                self.effect(e, st)
                return self.e(e[2], st)
            if o in ('post++', 'post--'):
                v = self.e(e[2], st)
                self.effect(e, st)
                return v
            x = self.e(e[2], st)
            if o == '-' and x[0] == 'lit' and x[1] == 'int':
                return ('lit', 'int', str(-int(x[2])))
            if o == '&' and x[0] == 'op' and x[1] == 'u*':
                return x[2][0]
            if o == '*' and x == ('this',):
                return ('this',)
            if o == '*' and x[0] == 'op' and x[1] == 'u&':
                return x[2][0]
            if o == '+':
                return x
            return ('op', 'u' + o, (x,))
        if k == 'opcall':
            o = e[1]
            xs = e[3]
            if o == '()':
                f = self.e(xs[0], st)
                return ('apply', f, self.args(xs[1:], st))
            if o == '[]':
                return ('idx', self.e(xs[0], st), self.e(xs[1], st))
            if o == ',':
                self.effect(xs[0], st)
                return self.e(xs[1], st)
            if o == '=' or (o.endswith('=') and o not in ('==', '!=', '<=', '>=') and len(xs) == 2):
                self.effect(e, st)
                return self.e(xs[0], st)
            if o in ('++', '--'):
                if len(xs) == 2:
                    v = self.e(xs[0], st)
                    self.effect(e, st)
                    return v
                self.effect(e, st)
                return self.e(xs[0], st)
            if isinstance(e[2], int) and e[2]:
                d = self.U.byid.get(e[2])
                if d is not None and self.inline(d, st.depth):
                    r = self.try_inline(d, xs, st)
                    if r is not None:
                        return r
            if len(xs) == 1:
                if o == '->':
                    return ('op', '->', (self.e(xs[0], st),))
                x = self.e(xs[0], st)
                if o == '*' and x == ('this',):
                    return ('this',)
                return ('op', 'u' + o, (x,))
            return ('op', o, self.args(xs, st))
        if k == 'index':
            return ('idx', self.e(e[1], st), self.e(e[2], st))
        if k == 'call':
            return self.call(e, st)
        if k == 'mcall':
            c = e[1]
            if not isinstance(c, list) or c[0] != 'member':
                raise Give('member pointer call')
            o = self.e(c[1], st)
            d = self.U.byid.get(e[2])
            if d is not None and not d.get('static') and self.inline(d, st.depth):
                r = self.try_inline(d, e[3], st, o)
                if r is not None:
                    return r
            if d is not None and d.get('static'):
                return self.named(d['q'], c[5] if len(c) > 5 else '', [d], e[3], st)
            return ('m', c[2], o, self.args(e[3], st))
        if k in ('uctor', 'ctor'):
            if k == 'uctor':
                t, xs = e[2], e[3]
            else:
                t, xs = e[2], e[4]
                if len(xs) == 1 and e[7]:
                    return self.e(xs[0], st)
            return ('new', t, self.args(xs, st))
        if k == 'valinit':
            return ('new', e[1], ())
        if k == 'ilist':
            if e[1] not in ('void', ''):
                return ('new', e[1], self.args(e[2], st))
            return ('il', self.args(e[2], st))
        if k == 'plist':
            return ('il', self.args(e[1], st))
        if k == 'stdil':
            return self.e(e[1], st)
        if k == 'pack':
            return ('pack', self.e(e[1], st))
        if k == 'dsref':
            return ('ds', strip(e[1]), e[2], e[3], None)
        if k == 'throw':
            return ('throw', self.e(e[1], st) if e[1] else ('lit', 'null', ''))
        if k == 'sizeofpack':
            return ('tp', 'sizeof...' + e[1])
        if k == 'sizeof':
            return ('tp', 'sizeof ' + e[1])
        if k == 'udl':
            return ('call', 'udl', '', self.args(e[2], st))
        if k == 'fold':
            return ('unk', 'fold')
        raise Give('expression ' + k + (' ' + str(e[1]) if k == '?' else ''))

    def call(self, e, st):
        c, xs = e[1], e[2]
        t = c[0]
        if t == 'func':
            return self.named(c[2], c[3], [self.U.byid[c[1]]] if c[1] in self.U.byid else [], xs, st)
        if t == 'lookup':
            return self.named(strip(c[1]), c[4] if len(c) > 4 else '', [self.U.byid[i] for i in c[2] if i in self.U.byid], xs, st, adl=bool(c[3]))
        if t == 'dsref':
            return ('ds', strip(c[1]), c[2], c[3], self.args(xs, st))
        if t in ('member', 'dmember', 'umember'):
            o = self.e(c[1], st)
            cands = []
            if t == 'umember':
                cands = [self.U.byid[i] for i in c[4] if i in self.U.byid]
            elif t == 'member' and c[4] in self.U.byid:
                cands = [self.U.byid[c[4]]]
            ok = [d for d in cands if d['t'] == 'fn' and arity_ok(d, len(xs), has_pack(xs))]
            if ok and all(d.get('static') for d in ok):
                return self.named(ok[0]['q'], '', ok, xs, st)
            if len(ok) == 1 and self.inline(ok[0], st.depth):
                r = self.try_inline(ok[0], xs, st, o)
                if r is not None:
                    return r
            return ('m', c[2], o, self.args(xs, st))
        f = self.e(c, st)
        return ('apply', f, self.args(xs, st))

    def named(self, q, targs, cands, xs, st, adl=False):
        if q in FORWARD and len(xs) == 1:
            return self.e(xs[0], st)
        ok = [d for d in cands if d['t'] in ('fn', 'xfn') and arity_ok(d, len(xs), has_pack(xs))]
        if len(ok) == 1 and not adl:
            q = ok[0]['q'] if ok[0]['q'].split('::')[-1] == q.split('::')[-1] else q
        if len(ok) == 1 and 'body' in ok[0] and self.inline(ok[0], st.depth) and not has_pack(xs):
            r = self.try_inline(ok[0], xs, st)
            if r is not None:
                return r
        return ('call', q, targs, self.args(xs, st))

    def try_inline(self, d, xs, st, this=None):
        if st.depth >= self.maxdepth or 'body' not in d or has_pack(xs):
            return None
        ps = d['params']
        if len(xs) > len(ps) or any(p[5] for p in ps):
            return None
        vals = [self.e(x, st) for x in xs]
        if len(vals) < len(ps):
            return None
        env = {('P', p[1]): v for p, v in zip(ps, vals)}
        try:
            o = self.block(d['body'], State(env, this if this is not None else ('this',), st.depth + 1), None)
        except Give:
            return None
        r = pure(o)
        if r is not None:
            self.size(r)
        return r


class State:
    __slots__ = ('env', 'this', 'depth', 'store', 'eff', 'order', 'refparms')

    def __init__(self, env, this, depth):
        self.env, self.this, self.depth, self.store, self.eff, self.order, self.refparms = env, this, depth, {}, [], [], ()

    def copy(self):
        s = State(dict(self.env), self.this, self.depth)
        s.store = dict(self.store); s.eff = list(self.eff); s.order = list(self.order)
        return s

    def freeze(self):
        return (tuple(self.store.items()), tuple(self.eff))


def pure(o):
    """outcome tree -> term when it has no effects and always returns, else None"""
    if o[0] == 'ret':
        if o[2] != ((), ()):
            return None
        return o[1]
    if o[0] == 'cond':
        a, b = pure(o[2]), pure(o[3])
        if a is None or b is None:
            return None
        return ('cond', o[1], a, b)
    return None


def subterms(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            st.extend(x)


def show(t, lim=400):
    s = _show(t)
    return s if len(s) <= lim else s[:lim] + '...'


def _show(t):
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if k == 'p': return '$%d' % t[1]
    if k == 'this': return '*this'
    if k == 'lit': return str(t[2]) if t[1] != 'bool' else ('true' if t[2] == '1' else 'false')
    if k == 'call': return '%s(%s)' % (t[1] + (('<%s>' % t[2]) if t[2] else ''), ', '.join(map(_show, t[3])))
    if k == 'm': return '%s.%s(%s)' % (_show(t[2]), t[1], ', '.join(map(_show, t[3])))
    if k == 'f': return '%s.%s' % (_show(t[2]), t[1])
    if k == 'op':
        if len(t[2]) == 1: return '(%s%s)' % (t[1].lstrip('u'), _show(t[2][0]))
        return '(%s)' % ((' %s ' % t[1]).join(map(_show, t[2])))
    if k == 'new': return '%s{%s}' % (t[1], ', '.join(map(_show, t[2])))
    if k == 'cond': return '(%s ? %s : %s)' % tuple(map(_show, t[1:4]))
    if k == 'ds': return '%s%s%s' % (t[1], t[2], '' if t[4] is None else '(%s)' % ', '.join(map(_show, t[4])))
    if k == 'apply': return '%s(%s)' % (_show(t[1]), ', '.join(map(_show, t[2])))
    if k == 'idx': return '%s[%s]' % (_show(t[1]), _show(t[2]))
    if k == 'cast': return '(%s)%s' % (t[1], _show(t[2]))
    if k == 'pack': return _show(t[1]) + '...'
    if k in ('tp', 'var', 'fn'): return str(t[1])
    return str(t)
