"""C12: function objects do what their names say."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import tu
from ir import loc
from terms import Give
from check import main

BIN = {'plus': '+', 'minus': '-', 'multiplies': '*', 'divides': '/', 'modulus': '%', 'equal_to': '==', 'not_equal_to': '!=', 'less': '<', 'greater': '>', 'less_equal': '<=', 'greater_equal': '>=',
       'logical_and': '&&', 'logical_or': '||', 'bit_and': '&', 'bit_or': '|', 'bit_xor': '^', 'shift_left': '<<', 'shift_right': '>>', 'assign': '=', 'plus_assign': '+=', 'minus_assign': '-=',
       'multiplies_assign': '*=', 'divides_assign': '/=', 'modulus_assign': '%=', 'bit_and_assign': '&=', 'bit_or_assign': '|=', 'bit_xor_assign': '^=', 'shift_left_assign': '<<=', 'shift_right_assign': '>>=',
       'comma': ',', 'member': '.*', 'member_pointer': '->*', 'subscript': '[]'}
UN = {'negate': '-', 'posite': '+', 'logical_not': '!', 'bit_not': '~', 'address_of': '&', 'dereference': '*', 'pre_increment': '++', 'pre_decrement': '--', 'post_increment': 'post++', 'post_decrement': 'post--'}
FWD = {'forward', 'move', 'as_const', 'as_lvalue', 'lvalue_forward', 'implicit_cast'}
P0, P1, P2 = ('p', 0), ('p', 1), ('p', 2)


def call(f, *a): return ('()', f) + a
def M(n): return ('m', n)


MUT = {'=', '++', '--', 'post++', 'post--', '&'} | {o + '=' for o in ('+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>')}


def value(t): return t[1] if t[0] == 'copy' else t


def op(o, *xs):
    """an operation; one that changes or names its operand sees whether it is a copy"""
    return (o,) + tuple(x if i == 0 and o in MUT and len(xs) + (o == '&') != 3 else value(x) for i, x in enumerate(xs))


def pure(t):
    return not isinstance(t, tuple) or (t[0] not in MUT and t[0] != '()' and t[0] != 'call' and all(pure(x) for x in t[1:]))


class Norm:
    """an expression as a tree of operations on parameters and members; helpers are unfolded"""
    def __init__(self, U, cls):
        self.U, self.cls = U, cls
        self.depth = 0

    def body(self, f, args=None, this=('this',)):
        if self.depth > 8: raise Give('deep recursion')
        env = {}
        for i, p in enumerate(f['params']):
            env[('P', p[1])] = args[i] if args is not None else ('pack', i) if p[5] else ('p', i)
        self.depth += 1
        try: r = self.stmts(f['body'][1] if f['body'][0] == 'block' else [f['body']], env)
        finally: self.depth -= 1
        if r is None: raise Give('no result')
        return r

    def stmts(self, ss, env):
        for i, s in enumerate(ss):
            if s is None: continue
            k = s[0]
            if k == 'ret': return value(self.ex(s[1], env)) if s[1] is not None else ('void',)
            if k == 'nop': continue
            if k == 'block':
                r = self.stmts(s[1], env)
                if r is not None: return r
                continue
            if k == 'expr':
                if not pure(self.ex(s[1], env)): raise Give('statement with an effect')
                continue
            if k == 'if':
                c = self.ex(s[1], env)
                t = self.stmts([s[2]], dict(env))
                e = self.stmts([s[3]], dict(env)) if s[3] else self.stmts(ss[i + 1:], env)
                if t is None or e is None: raise Give('statement')
                return ('?:', c, t, e)
            if k == 'decl':
                for d in s[1]:
                    if d[5] or d[4] is None: raise Give('local variable')
                    v = self.ex(d[4], env)
                    env[('L', d[0])] = v if d[3].rstrip().endswith('&') else ('copy', v)
                continue
            raise Give('statement ' + str(k))
        return None

    def ex(self, e, env):
        k = e[0]
        if k == 'parm':
            v = env.get(('P', e[1]))
            if v is None: raise Give('parameter')
            return v
        if k == 'local':
            v = env.get(('L', e[1]))
            if v is None: raise Give('local variable')
            return v
        if k == 'int': return ('int', int(e[1]))
        if k == 'this': return ('this',)
        if k in ('member', 'dmember', 'umember'):
            if e[1][0] == 'this': return ('m', e[2])
            return ('.', self.ex(e[1], env), e[2], bool(e[3]))
        if k == 'icast': return self.ex(e[3], env)
        if k == 'cast':
            if e[3].strip() in ('bool', 'void') or e[1] == 'static_cast' and e[3].strip().endswith('&'): return self.ex(e[4], env)
            raise Give('cast')
        if k == 'plist' and len(e[1]) == 1: return self.ex(e[1][0], env)
        if k == 'bool': return ('bool', bool(e[1]))
        if k == 'cond': return ('?:', self.ex(e[1], env), self.ex(e[2], env), self.ex(e[3], env))
        if k == 'bin': return op(e[1], self.ex(e[2], env), self.ex(e[3], env))
        if k == 'un': return op(e[1], self.ex(e[2], env))
        if k == 'index': return ('[]', self.ex(e[1], env), self.ex(e[2], env))
        if k == 'pack': return self.ex(e[1], env)
        if k == 'opcall':
            xs = [self.ex(x, env) for x in e[3]]
            o = e[1]
            if o == '()': return ('()',) + tuple(value(x) for x in xs)
            if o in ('++', '--') and len(xs) == 2: return ('post' + o, xs[0])
            return op(o, *xs)
        if k == 'ctor' and len(e[4]) == 1: return self.ex(e[4][0], env)
        if k in ('call', 'mcall'):
            c = e[1]
            xs = [self.ex(x, env) for x in (e[2] if k == 'call' else e[3])]
            xs = [value(x) for x in xs]
            if k == 'mcall': c = ['member', c[1], c[2], c[3], e[2]] if isinstance(c, list) and c[0] == 'member' else c
            if c[0] in ('func', 'lookup'):
                q = (c[2] if c[0] == 'func' else c[1]).lstrip(':')
                s = q.split('::')[-1]
                if s in FWD and len(xs) == 1: return xs[0]
                if s == 'addressof' and len(xs) == 1: return ('&', xs[0])
                ds = [self.U.byid[i] for i in ([c[1]] if c[0] == 'func' else c[2]) if i in self.U.byid]
                ds = [d for d in ds if d['t'] == 'fn' and 'body' in d and not d.get('inst') and len(d['params']) == len(xs) and not any(p[5] for p in d['params'])]
                if len(ds) == 1: return self.body(ds[0], xs)
                raise Give('call of ' + q)
            if c[0] in ('member', 'dmember', 'umember') and c[1][0] == 'this':
                ds = [self.U.byid[i] for i in (([c[4]] if c[0] == 'member' else c[4] if c[0] == 'umember' else []) or []) if i in self.U.byid]
                fs = [d for d in ds if d['t'] == 'fn']
                if fs:
                    fs = [d for d in fs if 'body' in d and len(d['params']) == len(xs)]
                    if len(fs) == 1 and not any(p[5] for p in fs[0]['params']): return self.body(fs[0], xs)
                    return ('call', c[2]) + tuple(xs)
                return ('()', ('m', c[2])) + tuple(xs)
            return ('()', self.ex(c, env)) + tuple(xs)
        raise Give('expression ' + str(k))


def formula(t):
    """-> (truth function, atoms) of a tree of !, &&, ||, ?: over other trees"""
    atoms = []

    def b(t):
        if t[0] == '!' and len(t) == 2:
            f = b(t[1]); return lambda v: not f(v)
        if t[0] in ('&&', '||') and len(t) == 3:
            f, g = b(t[1]), b(t[2])
            return (lambda v: f(v) and g(v)) if t[0] == '&&' else (lambda v: f(v) or g(v))
        if t[0] == '?:':
            c, f, g = b(t[1]), b(t[2]), b(t[3])
            return lambda v: f(v) if c(v) else g(v)
        if t[0] == 'bool': return lambda v: t[1]
        if t not in atoms: atoms.append(t)
        return lambda v: v[t]
    return b(t), atoms


def agree(a, b):
    if a == b: return True
    if not any(x[0] in ('()', 'call') for x in formula(b)[1]): return False       # an operator itself is not made of others
    f, x = formula(a)
    g, y = formula(b)
    if set(x) != set(y): return False
    import itertools
    return all(f(dict(zip(x, v))) == g(dict(zip(x, v))) for v in itertools.product((False, True), repeat=len(x)))


def shown(t):
    if t[0] == 'p': return 'xyz'[t[1]] if t[1] < 3 else 'p%d' % t[1]
    if t[0] in ('m', 'pack', 'bool'): return str(t[1]) + ('...' if t[0] == 'pack' else '')
    if t[0] == '()': return shown(t[1]) + '(' + ', '.join(shown(x) for x in t[2:]) + ')'
    if t[0] in ('call', '.', 'this', 'void'): return str(t)
    if len(t) == 2: return t[0] + '(' + shown(t[1]) + ')'
    if len(t) == 3: return '(%s %s %s)' % (shown(t[1]), t[0], shown(t[2]))
    return t[0] + '(' + ', '.join(shown(x) for x in t[1:]) + ')'


def bare(q): return re.sub(r'<.*', '', q)


def wants(cls, name, f, memb):
    """trees the function may have, None when it has no rule; memb: names of the members by role"""
    n = len(f['params'])
    if name != 'operator()': return None
    if cls.startswith('sprout::') and cls.count('::') == 1:
        s = cls[8:]
        if s == 'subscript' and n == 2: return [('[]', P0, P1), ('[]', P1, P0)]      # the front end gives the operands of a dependent subscript in either order
        if s in BIN and n == 2: return [(BIN[s], P0, P1)]
        if s in UN and n == 1: return [(UN[s], P0)]
        if s == 'cond' and n == 3: return [('?:', P0, P1, P2)]
        if s == 'call_fun' and n == 2: return [('()', P0, ('pack', 1))]
        one = memb[0] if len(memb) == 1 else None
        if one is None: return None
        if s in ('mem_fun_t', 'const_mem_fun_t'): return [('()', ('->*', P0, M(one)))]
        if s in ('mem_fun1_t', 'const_mem_fun1_t'): return [('()', ('->*', P0, M(one)), P1)]
        if s in ('mem_fun_ref_t', 'const_mem_fun_ref_t'): return [('()', ('.*', P0, M(one)))]
        if s in ('mem_fun1_ref_t', 'const_mem_fun1_ref_t'): return [('()', ('.*', P0, M(one)), P1)]
        if s == 'pointer_to_unary_function': return [call(M(one), P0)]
        if s == 'pointer_to_binary_function': return [call(M(one), P0, P1)]
        if s == 'reference_wrapper': return [('()', ('*', M(one)), ('pack', 0))]
        if s == 'mem_fn_adaptor':
            a = () if n == 1 else (('pack', 1),)
            direct = [(o, P0, M(one)) for o in ('.*', '->*')] + [('.*', ('*', P0), M(one))]
            return [('()', d) + a for d in direct] + (direct if n == 1 else []) + [('call', 'call', P0, ('&', P0)) + a]
        return None
    if cls == 'sprout::detail::unary_negate_impl' and n == 1 and len(memb) == 1: return [('!', call(M(memb[0]), P0))]
    if cls == 'sprout::detail::binary_negate_impl' and n == 2 and len(memb) == 1: return [('!', call(M(memb[0]), P0, P1))]
    if cls == 'sprout::detail::equiv_adaptor_impl' and n == 2 and len(memb) == 1: return [('&&', ('!', call(M(memb[0]), P0, P1)), ('!', call(M(memb[0]), P1, P0)))]
    if cls in ('sprout::detail::binder1st', 'sprout::detail::binder2nd') and n == 1 and len(memb) == 2:
        return [call(M(memb[0]), M(memb[1]), P0) if cls.endswith('1st') else call(M(memb[0]), P0, M(memb[1]))]
    return None


def result(f, cls):
    """the expression whose type an operation has, where it is another operation's"""
    m = re.match(r'^decltype\((.*)\)$', f.get('ret') or '')
    s = cls[8:]
    tp = [x[1] for x in f.get('tp', ()) if x[0] == 't']
    if not m or not (s in BIN and len(tp) >= 2 or s in UN and tp): return None
    x = re.sub(r'\s', '', re.sub(r'std::declval<(\w+)>\(\)', r'\1', m.group(1)))
    if not re.match(r'^[\w\[\]().,<>=!+*/%&|^~-]+$', x): return None
    if s in BIN: ok = [tp[0] + BIN[s] + tp[1]] if s != 'subscript' else ['%s[%s]' % tuple(tp[:2])]
    elif UN[s].startswith('post'): ok = [tp[0] + UN[s][4:]]
    else: ok = [UN[s] + tp[0]]
    other = re.match(r'^(%s)(\W{1,3})(%s)$|^(\W{1,2})(%s)$|^(%s)(\+\+|--)$' % ('|'.join(tp), '|'.join(tp), tp[0], tp[0]), x)
    return x if other and x not in ok else None


def check(R, tier):
    R.rule('Each operator() of the function objects of sprout/functional is reduced to a tree of operations on its parameters and members (forwarding, bindings and helper functions are unfolded) and compared with the operation '
           'its class is named after, operands in order: arithmetic, comparison, logical, bitwise and shift operators and their assignments, increments, address, dereference, subscript, comma, conditional, pointers to members, '
           'calls; not1 and not2 negate, equiv is neither less nor greater, bind1st and bind2nd put the value first and second, mem_fun*, mem_fn, ptr_fun and reference_wrapper call what they hold with the arguments in order. '
           'X_t is X<>, and the object X_ is an X_t.')
    R.assume += ['bind, hash and call wrappers with placeholders are not covered.']
    for un, U in tu.header_units(('portable17', 'portable11')).items():
        for f in U.fns:
            if f['name'] != 'operator()' or 'body' not in f or f.get('inst') or f.get('cls') is None: continue
            if not re.match(r'sprout/functional/', f['file']): continue
            rec = U.byid.get(f['cls'])
            if rec is None: continue
            cls = bare(rec['q'])
            memb = [x[0] for x in rec.get('fields', ())]
            w = wants(cls, f['name'], f, memb)
            if w is None: continue
            R.count('function objects')
            key = '%s(%s)%s' % (f['q'], ', '.join(p[3] for p in f['params']), ' const' if f.get('const') else '')
            try: t = Norm(U, rec).body(f)
            except Give as x:
                R.undecided('%s: %s: %s' % (loc(f), f['q'], x)); continue
            rt = result(f, cls)
            if rt: R.bad(key + ' type', '%s: the result type of %s is that of %s' % (loc(f), f['q'], rt)); continue
            if any(agree(t, x) for x in w): R.ok(); R.sample(key)
            else: R.bad(key, '%s: %s does %s, not %s' % (loc(f), f['q'], shown(t)[:200], ' or '.join(shown(x) for x in w)[:200]))
        names(R, U)
    R.floor('function objects', 150)
    R.floor('named objects', 60)


def names(R, U):
    for d in U.decls:
        if not re.match(r'sprout/functional/', d.get('file', '')): continue
        q = d.get('q', '')
        if d['t'] in ('typedef', 'alias') and re.match(r'^sprout::\w+_t$', q): s = q[8:-2]
        elif d['t'] == 'var' and re.match(r'^sprout::(\(anonymous[^)]*\)::)?\w+_$', q): s = d['name'][:-1]
        else: continue
        if s not in BIN and s not in UN and s not in ('cond', 'call_fun'): continue
        R.count('named objects')
        if re.sub(r'^const ', '', d['cty']) == 'sprout::%s<void>' % s: R.ok()
        else: R.bad(q, '%s: %s is of type %s' % (loc(d), q, d['ty']))


if __name__ == '__main__':
    sys.exit(main('C12', check))
