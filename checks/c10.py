"""C10: named constants, tables and engine parameters hold the values their names say."""
import os, sys, re, math
from fractions import Fraction as Q
from decimal import Decimal, getcontext
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import tu
from ir import loc, walk, nodes
from check import main

getcontext().prec = 90


def pi():
    def atan_inv(n):
        x = Decimal(1) / n; s = x; k = 1; sg = -1; n2 = n * n
        while True:
            x /= n2; k += 2; t = x / k
            if t < Decimal(10) ** -88: return s
            s += sg * t; sg = -sg
    return 4 * (4 * atan_inv(5) - atan_inv(239))


PI = pi(); D = Decimal
CONST = {
    'pi': PI, 'half_pi': PI / 2, 'third_pi': PI / 3, 'two_thirds_pi': 2 * PI / 3, 'quarter_pi': PI / 4, 'three_quarters_pi': 3 * PI / 4,
    'two_pi': 2 * PI, 'four_pi': 4 * PI, 'two_div_pi': 2 / PI, 'root_two_div_pi': (2 / PI).sqrt(), 'root_pi': PI.sqrt(), 'one_div_root_pi': 1 / PI.sqrt(),
    'root_one_div_pi': (1 / PI).sqrt(), 'two_div_root_pi': 2 / PI.sqrt(), 'half': D('0.5'), 'quarter': D('0.25'), 'third': D(1) / 3, 'two_thirds': D(2) / 3,
    'root_two': D(2).sqrt(), 'root_three': D(3).sqrt(), 'half_root_two': D(2).sqrt() / 2, 'e': D(1).exp(), 'ln_ten': D(10).ln(), 'ln_two': D(2).ln(), 'phi': (1 + D(5).sqrt()) / 2,
}


def bernoulli(n):
    A = [Q(0)] * (n + 1); out = []
    for m in range(n + 1):
        A[m] = Q(1, m + 1)
        for j in range(m, 0, -1): A[j - 1] = j * (A[j - 1] - A[j])
        out.append(A[0])
    return out


DIG = {'float': 24, 'double': 53, 'long double': 64}
MT = {
    'mt11213b': ['unsigned long', 32, 351, 175, 19, 0xccab8ee7, 11, 0xffffffff, 7, 0x31b6ab00, 15, 0xffe50000, 17, 1812433253],
    'mt19937': ['unsigned long', 32, 624, 397, 31, 0x9908b0df, 11, 0xffffffff, 7, 0x9d2c5680, 15, 0xefc60000, 18, 1812433253],
    'mt19937_64': ['unsigned long', 64, 312, 156, 31, 0xb5026f5aa96619e9, 29, 0x5555555555555555, 17, 0x71d67fffeda60000, 37, 0xfff7eee000000000, 43, 6364136223846793005],
}
LC = 'sprout::random::linear_congruential_engine<unsigned long, %d, %d, %d>'
LFS = 'sprout::random::linear_feedback_shift_engine<unsigned int, 32, %d, %d, %d>'
XOR = 'sprout::random::xor_combine_engine<%s, 0, %s, 0>'
ENG = {k: 'sprout::random::mersenne_twister_engine<%s>' % ', '.join(map(str, v)) for k, v in MT.items()}
ENG.update({
    'minstd_rand0': LC % (16807, 0, 2147483647), 'minstd_rand': LC % (48271, 0, 2147483647),
    'hellekalek1995': 'sprout::random::inversive_congruential_engine<unsigned long, 9102, 2110599482, 2147483647>',
    'ecuyer1988': 'sprout::random::additive_combine_engine<%s, %s>' % (LC % (40014, 0, 2147483563), LC % (40692, 0, 2147483399)),
    'knuth_b': 'sprout::random::shuffle_order_engine<%s, 256>' % (LC % (16807, 0, 2147483647)),
    'kreutzer1986': 'sprout::random::shuffle_order_engine<%s, 97>' % (LC % (1366, 150889, 714025)),
    'taus88': XOR % (XOR % (LFS % (31, 13, 12), LFS % (29, 2, 4)), LFS % (28, 3, 17)),
})
SEEDS = {'mersenne_twister_engine': 5489, 'linear_congruential_engine': 1, 'inversive_congruential_engine': 1, 'linear_feedback_shift_engine': 341}
MD5_H = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476]
SHA1_H = MD5_H + [0xC3D2E1F0]
SHA1_K = [0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xCA62C1D6]


def sin_d(x):
    x = x % (2 * PI); t = x; s = x; n = 1
    while abs(t) > D(10) ** -60:
        t = -t * x * x / ((n + 1) * (n + 2)); n += 2; s += t
    return s


MD5_T = [int(abs(sin_d(D(i + 1))) * 2 ** 32) for i in range(64)]
MD5_S = [[7, 12, 17, 22], [5, 9, 14, 20], [4, 11, 16, 23], [6, 10, 15, 21]]
MD5_X = [lambda i: i, lambda i: (5 * i + 1) % 16, lambda i: (3 * i + 5) % 16, lambda i: (7 * i) % 16]
CLS = {
    'alpha': lambda c: chr(c).isalpha(), 'blank': lambda c: c in (9, 32), 'cntrl': lambda c: c < 32 or c == 127, 'digit': lambda c: 48 <= c <= 57,
    'graph': lambda c: 33 <= c <= 126, 'lower': lambda c: 97 <= c <= 122, 'print': lambda c: 32 <= c <= 126,
    'punct': lambda c: 33 <= c <= 126 and not chr(c).isalnum(), 'space': lambda c: c in (9, 10, 11, 12, 13, 32), 'upper': lambda c: 65 <= c <= 90,
    'xdigit': lambda c: chr(c) in '0123456789abcdefABCDEF',
}
UUID_NS = {'dns': 0x10, 'url': 0x11, 'oid': 0x12, 'x500': 0x14}


def rnd(x, p):
    """nearest number with p significant bits"""
    if not x: return x
    e = 0; a = abs(x)
    e = a.numerator.bit_length() - a.denominator.bit_length() - p
    sc = Q(2) ** -e
    y = a * sc
    while y >= 2 ** p: y /= 2; e += 1
    while y < 2 ** (p - 1): y *= 2; e -= 1
    r = Q(round(y)) * Q(2) ** e
    return r if x > 0 else -r


class Unk(Exception): pass


class Ev:
    """folds literal initialisers: literals, arithmetic, named constants, functions without parameters, constructors that only collect"""

    def __init__(s, U):
        s.U = U; s.var = {}; s.busy = set()
        for v in U.vars:
            if v.get('init') is not None: s.var.setdefault(v['id'], v['init'])

    def n(s, e):
        if not isinstance(e, list) or not e: raise Unk('?')
        k = e[0]
        if k == 'int': return int(e[1])
        if k == 'bool': return int(e[1])
        if k == 'char': return int(e[1])
        if k == 'str': return e[1]
        if k == 'float':
            t = e[3] if len(e) > 3 else e[1]
            x = Q(Decimal(t.replace("'", '').rstrip('flFL'))) if not t.lower().startswith('0x') else Q(Decimal(e[1]))
            return rnd(x, DIG.get(e[2], 64))
        if k == 'icast': return s.cast(s.n(e[3]), e[2])
        if k == 'cast': return s.cast(s.n(e[4]), e[3])
        if k in ('paren', 'expr'): return s.n(e[1])
        if k == 'un':
            x = s.n(e[2])
            if e[1] == '-': return -x
            if e[1] == '+': return x
            raise Unk(e[1])
        if k == 'bin':
            a, b = s.n(e[2]), s.n(e[3]); o = e[1]
            if isinstance(a, (list, str)) or isinstance(b, (list, str)): raise Unk(o)
            if o == '+': return a + b
            if o == '-': return a - b
            if o == '*': return a * b
            if o == '/':
                if not b: raise Unk('/0')
                return Q(a) / b if isinstance(a, Q) or isinstance(b, Q) else a // b if a >= 0 and b > 0 else -(-a // b)
            if isinstance(a, Q) or isinstance(b, Q): raise Unk(o)
            if o == '<<' and 0 <= b < 128: return a << b
            if o == '>>' and 0 <= b < 128: return a >> b
            if o == '|': return a | b
            if o == '&': return a & b
            if o == '^': return a ^ b
            if o == '%' and b: return a % b
            raise Unk(o)
        if k in ('ilist', 'plist'):
            l = [s.n(x) for x in (e[2] if k == 'ilist' else e[1])]
            return l[0] if len(l) == 1 and isinstance(l[0], (list, str)) else l
        if k in ('ctor', 'uctor'):
            a = e[4] if k == 'ctor' else e[3]
            l = [s.n(x) for x in a]
            return l[0] if len(l) == 1 else l
        if k == 'var':
            if e[1] in s.var and e[1] not in s.busy:
                s.busy.add(e[1])
                try: return s.n(s.var[e[1]])
                finally: s.busy.discard(e[1])
            raise Unk(e[2])
        if k == 'call' and isinstance(e[1], list):
            nm = e[1][2] if e[1][0] == 'func' else e[1][1]
            if isinstance(nm, str):
                last = nm.split('::')[-1]
                if last in ('make_array', 'to_string', 'array', 'make_common_array'):
                    l = [s.n(x) for x in e[2]]
                    return l[0] if len(l) == 1 and isinstance(l[0], (str, list)) else l
                if last in ('forward', 'move') and len(e[2]) == 1: return s.n(e[2][0])
                if not e[2]:
                    fs = s.U.byq.get(nm, [])
                    if len(fs) == 1: return s.fn(fs[0])
            raise Unk('call %s' % nm)
        raise Unk(k)

    def cast(s, x, ty):
        return x

    def fn(s, f):
        if f['id'] in s.busy: raise Unk('rec')
        s.busy.add(f['id'])
        try:
            b = f.get('body')
            if not b or b[0] != 'block': raise Unk('body')
            rets = [x for x in b[1] if isinstance(x, list) and x and x[0] == 'ret']
            if len(rets) != 1: raise Unk('body')
            return s.n(rets[0][1])
        finally: s.busy.discard(f['id'])


BITS = {'char': (8, 1), 'signed char': (8, 1), 'unsigned char': (8, 0), 'wchar_t': (32, 1), 'char16_t': (16, 0), 'char32_t': (32, 0), 'short': (16, 1), 'unsigned short': (16, 0),
        'int': (32, 1), 'unsigned int': (32, 0), 'long': (64, 1), 'unsigned long': (64, 0)}


class Fd(Ev):
    """values of loop-free integer functions over a finite domain of arguments, by substitution"""

    def __init__(s, U):
        super().__init__(U); s.env = {}; s.cache = {}

    def cast(s, x, ty):
        ty = ty.replace('const ', '')
        if ty == 'bool': return int(bool(x))
        if ty in BITS and isinstance(x, int):
            w, sg = BITS[ty]; x &= (1 << w) - 1
            if sg and x >> (w - 1): x -= 1 << w
        return x

    def n(s, e):
        if isinstance(e, list) and e:
            k = e[0]
            if k == 'parm':
                if e[1] in s.env: return s.env[e[1]]
                raise Unk('parm')
            if k == 'enumc': return int(e[3])
            if k == 'var':
                if e[1] not in s.cache: s.cache[e[1]] = super().n(e)
                return s.cache[e[1]]
            if k == 'cond': return s.n(e[2]) if s.n(e[1]) else s.n(e[3])
            if k == 'index':
                t, i = s.n(e[1]), s.n(e[2])
                if not isinstance(t, list) or not 0 <= i < len(t): raise Unk('index')
                return t[i]
            if k == 'un' and e[1] == '!': return int(not s.n(e[2]))
            if k == 'un' and e[1] == '~': return ~s.n(e[2])
            if k == 'bin':
                o = e[1]
                if o == '&&': return int(bool(s.n(e[2])) and bool(s.n(e[3])))
                if o == '||': return int(bool(s.n(e[2])) or bool(s.n(e[3])))
                if o in ('==', '!=', '<', '>', '<=', '>='):
                    a, b = s.n(e[2]), s.n(e[3])
                    return int({'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[o])
            if k == 'call' and isinstance(e[1], list) and e[1][0] == 'func' and e[1][1] in s.U.byid:
                return s.call(s.U.byid[e[1][1]], [s.n(x) for x in e[2]])
            if k == 'opcall' and isinstance(e[2], int) and e[2] in s.U.byid:
                return s.call(s.U.byid[e[2]], [s.n(x) for x in e[3]])
        return super().n(e)

    def call(s, f, args):
        ps = f.get('params', [])
        if not f.get('body') or len(ps) != len(args) or len(s.busy) > 40: raise Unk('call ' + f['q'])
        b = f['body']
        if b[0] != 'block' or len(b[1]) != 1 or b[1][0][0] != 'ret': raise Unk('body of ' + f['q'])
        old = s.env; s.env = {p[1]: a for p, a in zip(ps, args)}
        try: return s.n(b[1][0][1])
        finally: s.env = old


def close(x, ref, digits):
    ref = Q(ref)
    if ref == 0: return x == 0
    return abs(Q(x) - ref) <= abs(ref) * Q(1, 2 ** digits)


def check(R, tier):
    R.rule('Every named constant, lookup table and engine parameter list of the library is folded from its initialiser in the syntax tree and compared with an independently computed value: '
           'mathematical constants to the precision of long double (from 90-digit series), factorials and Bernoulli numbers exactly rounded and their limits, log-factorial and Stirling tables, '
           'the MD5 sine, shift and index tables, the SHA-1 and MD5 constants, the ASCII class of all 128 characters, digit alphabets, bit-reversal and bit-length tables, '
           'parameters and default seeds of the random engines (as the C++ standard and the original papers give them), the result of the ASCII character functions for every character, RFC 4122 name-space identifiers and variant/version numbers, '
           'digit counts and bases of numeric parsers, masks, placeholders and manipulators.')
    R.assume += ['A constant that is renamed or computed in a way the folding does not follow is counted as undecided.']
    for un in ('portable17', 'portable11') if tier == 'quick' else ('portable17', 'portable11', 'portable14', 'gcc17', 'gcc11'):
        U = tu.header_units((un,))[un]; E = Ev(U); und = 0

        def cmp(q, where, got, want, what):
            key = '%s %s' % (q, what)
            R.ok(1) if got == want else R.bad(key, '%s: %s: %s is %s, not %s' % (where, q, what, got, want))

        # 1 mathematical constants
        n = 0
        for nm, ref in CONST.items():
            for f in U.byq.get('sprout::math::' + nm, []):
                if f.get('params'): continue
                try: v = E.fn(f)
                except Unk as x: und += 1; R.sample('undecided: %s (%s)' % (f['q'], x)); continue
                n += 1
                if close(v, ref, 63): R.ok(1)
                else: R.bad('const %s' % nm, '%s: sprout::math::%s is %.20g, not %.20g' % (loc(f), nm, D(v.numerator) / D(v.denominator) if isinstance(v, Q) else v, ref))
        for v in U.vars:
            m = re.match(r'sprout::math::(\w+)_v$', v['q'])
            if m and m.group(1) in CONST and v.get('init'):
                i = v['init']
                while i and i[0] in ('icast', 'cast'): i = i[3] if i[0] == 'icast' else i[4]
                nm = None
                if i[0] == 'call' and isinstance(i[1], list): nm = i[1][2] if i[1][0] == 'func' else i[1][1]
                try:
                    val = E.n(v['init']); okv = close(val, CONST[m.group(1)], 63)
                except Unk:
                    if not (isinstance(nm, str) and nm.startswith('sprout::math::')): und += 1; continue
                    okv = nm == 'sprout::math::' + m.group(1)
                    if not okv and nm.split('::')[-1] not in CONST: und += 1; continue
                n += 1
                R.ok(1) if okv else R.bad('constv %s' % m.group(1), '%s:%s: %s is not the value of %s (it is %s)' % (v['file'], v['line'], v['q'], m.group(1), nm))
        R.count('mathematical constants (%s)' % un, n)

        # 2 factorials and Bernoulli numbers
        B = bernoulli(110); lim = {}; tab = {}
        for v in U.vars:
            if v['clsq'] if 'clsq' in v else None:
                c = v['clsq']
                if c in ('sprout::math::detail::factorials', 'sprout::math::detail::bernoulli_numbers') and v.get('init'):
                    key = v['q'].rsplit('::', 1)[0]
                    (lim if v['name'] == 'limit' else tab)[key] = v
        nt = 0
        for key, v in tab.items():
            isf = 'factorials' in key; w = '%s:%s' % (v['file'], v['line'])
            try:
                t = E.n(v['init']); L = E.n(lim[key]['init'])
            except (Unk, KeyError) as x: und += 1; R.sample('undecided: %s (%s)' % (key, x)); continue
            ty = next((t_ for t_ in ('long double', 'double', 'float') if re.search(r'\b%s\b' % t_, key)), None)
            if not isinstance(t, list): und += 1; continue
            nt += 1
            want_n = L + 1 if isf else L // 2 + 1
            cmp(key, w, len(t), want_n, 'the number of table entries')
            for i, x in enumerate(t):
                ref = math.factorial(i) if isf else B[2 * i]
                if ty:
                    if close(x, ref, DIG[ty] - 1): R.ok(1)
                    else: R.bad('%s[%d]' % (key, i), '%s: entry %d of the %s table for %s is %s, not %s' % (w, i, 'factorial' if isf else 'Bernoulli', ty, float(x), float(ref)))
                else:
                    if x == ref: R.ok(1)
                    else: R.bad('%s[%d]' % (key, i), '%s: entry %d of the factorial table (%s) is %s, not %s' % (w, i, key, x, ref))
            m = re.search(r'is_([su])int<T>::value && sizeof\(T\) == (\d)', key)
            if m:
                mx = 2 ** (int(m.group(2)) * 8 - (m.group(1) == 's')) - 1
                if math.factorial(L) > mx: R.bad('%s limit' % key, '%s: the limit %d exceeds the type: %d! does not fit' % (w, L, L))
                else: R.ok(1)
        R.count('factorial and Bernoulli tables (%s)' % un, nt)

        # 3 tables
        byq = {}
        for v in U.vars:
            if v.get('init') is not None: byq.setdefault(v['q'], v)

        def table(q, want, what, digits=None):
            v = byq.get(q); nonlocal und
            if v is None: und += 1; R.sample('undecided: no %s' % q); return
            w = '%s:%s' % (v['file'], v['line'])
            try: t = E.n(v['init'])
            except Unk as x: und += 1; R.sample('undecided: %s (%s)' % (q, x)); return
            if not isinstance(t, list): und += 1; return
            cmp(q, w, len(t), len(want), 'the number of entries')
            for i, (a, b) in enumerate(zip(t, want)):
                okk = (a == b) if digits is None else (abs(Q(a) - Q(b)) <= Q(1, 10 ** digits))
                if okk: R.ok(1)
                else: R.bad('%s[%d]' % (q, i), '%s: %s[%d] is %s, not %s (%s)' % (w, q, i, float(a) if digits else a, float(b) if digits else b, what))

        lf = [D(math.factorial(k)).ln() for k in range(10)]
        table('sprout::random::detail::poisson_table::table', lf, 'log of the factorial', 13)
        st = [lf[k] - ((2 * PI).ln() / 2 + (k + D('0.5')) * D(k + 1).ln() - (k + 1)) for k in range(10)]
        table('sprout::random::detail::binomial_table::table', st, 'Stirling correction', 13)
        table('sprout::detail::bit_rev_8_table', [int('{:08b}'.format(i)[::-1], 2) for i in range(256)], 'bits reversed')
        table('sprout::detail::bit_len_8_table', [i.bit_length() for i in range(256)], 'bit length')
        # ascii: decode the class bits by the class constants themselves
        bits = {}
        for c in CLS:
            v = byq.get('sprout::ascii::detail::' + c)
            if v is not None:
                try: bits[c] = E.n(v['init'])
                except Unk: pass
        if len(bits) == len(CLS):
            if len(set(bits.values())) != len(bits) or any(b <= 0 or b & (b - 1) for b in bits.values()):
                R.bad('ascii bits', 'sprout/ctype/ascii.hpp: the class constants are not distinct single bits: %s' % bits)
            else: R.ok(len(bits))
            table('sprout::ascii::detail::table', [sum(bits[c] for c in CLS if CLS[c](i)) for i in range(128)], 'character class bits')
        else: und += 1
        # character functions, over the whole of char and ASCII plus the outside of the wider types
        F = Fd(U); nch = 0
        masks = {d['name']: int(d['val']) for d in U.decls if d.get('t') == 'enumc' and d['q'].startswith('sprout::ctypes::')}
        for f in U.fns:
            m = re.match(r'sprout::ascii::(is|to)([wu]?(?:16|32)?)(\w+)$', f['q'])
            if not m or not f.get('body') or not f.get('params'): continue
            ps = f['params']; ct = ps[-1][3].replace('const ', '')
            if ct not in BITS: continue
            nm = f['q'].split('::')[-1][2:]
            known = set(CLS) | {'alnum', 'lower', 'upper', 'classified'}
            nm = next((k for k in known if nm == k or re.match(r'[wu]?(16|32)?%s$' % k, nm)), None)
            if nm is None: continue
            isto = f['q'].split('::')[-1].startswith('to')
            dom = list(range(128)) + (list(range(-128, 0)) if ct == 'char' else [128, 160, 255, 256, 0x2000, 0xFFFF] + ([0x10FFFF] if BITS[ct][0] == 32 else []))
            key = '%s(%s)' % (f['q'], ct)
            try:
                bad = None
                for c in dom:
                    al = lambda k: (0 <= c < 128 and (CLS[k](c) if k != 'alnum' else chr(c).isalnum()))
                    if nm == 'classified':
                        for mk, mv in masks.items():
                            got = bool(F.call(f, [mv, c]))
                            if got != al(mk): bad = (c, mk, got); break
                    elif isto:
                        want = c + 32 if nm == 'lower' and al('upper') else c - 32 if nm == 'upper' and al('lower') else c
                        got = F.call(f, [c])
                        if got != want: bad = (c, '', got)
                    else:
                        got = bool(F.call(f, [c]))
                        if got != al(nm): bad = (c, '', got)
                    if bad: break
                nch += 1
                if bad: R.bad(key, '%s: %s(%s%s) gives %s (%s)' % (loc(f), f['q'], bad[1] + ', ' if bad[1] else '', bad[0], bad[2], ct))
                else: R.ok(len(dom))
            except Unk as x: und += 1; R.sample('undecided: %s (%s)' % (key, x))
        R.count('character functions (%s)' % un, nch)
        # digit alphabets
        nal = 0
        for v in U.vars:
            m = re.match(r'sprout::(?:weed|uuids)::detail::(\w+)<(\w+), type-parameter', v['q'])
            if not m or v.get('init') is None: continue
            kind, ch = m.group(1), m.group(2)
            try: t = E.n(v['init'])
            except Unk: continue
            al = {'digits': '0123456789', 'xdigits': '0123456789abcdefABCDEF', 'bdigits': '01', 'odigits': '01234567'}
            if v['q'].startswith('sprout::uuids'): al = {'digits': '0123456789abcdefABCDEF'}
            tokens = {'dns_token': 'dns', 'url_token': 'url', 'oid_token': 'oid', 'x500_token': 'x500'}
            w = '%s:%s' % (v['file'], v['line'])
            if isinstance(t, str) and (kind in al or kind in tokens):
                nal += 1; cmp('%s<%s>' % (kind, ch), w, t, al.get(kind, tokens.get(kind)), 'the text')
            elif isinstance(t, list) and ch == 'void':
                k0 = kind.replace('values', 'digits')
                if kind == 'values' and v['q'].startswith('sprout::uuids'): k0 = 'digits'
                if k0 in al and all(isinstance(x, int) for x in t):
                    nal += 1; cmp(kind, w, t, [int(c, 16) for c in al[k0]], 'the digit values')
        R.count('alphabets (%s)' % un, nal)

        # 4 checksums
        nmd = 0
        for v in U.vars:
            m = re.match(r'sprout::md5_detail::round_table<(\d), .*>::(xis|ts|ss)$', v['q'])
            if not m or v.get('init') is None: continue
            r = int(m.group(1)) - 1
            try: t = E.n(v['init'])
            except Unk: und += 1; continue
            want = {'xis': [MD5_X[r](i) for i in range(16)], 'ts': MD5_T[16 * r:16 * r + 16], 'ss': MD5_S[r] * 4}[m.group(2)]
            nmd += 1
            for i, (a, b) in enumerate(zip(t, want)):
                if a == b: R.ok(1)
                else: R.bad('%s[%d]' % (v['q'], i), '%s:%s: %s[%d] is %#x, not %#x (RFC 1321)' % (v['file'], v['line'], v['q'], i, a, b))
            cmp(v['q'], '%s:%s' % (v['file'], v['line']), len(t), 16, 'the number of entries')
        R.count('MD5 tables (%s)' % un, nmd)
        for cls, H, K in (('sprout::md5', MD5_H, []), ('sprout::sha1', SHA1_H, SHA1_K)):
            for f in U.fns:
                if f.get('clsq') != cls: continue
                big = [int(x[1]) for x in nodes(f) if x[0] == 'int' and int(x[1]) >= 1 << 24 and int(x[1]) < 1 << 32 and int(x[1]) != 0xFFFFFFFF]
                if not big: continue
                want = H if len(big) >= 4 and not (set(big) & set(K) and len(big) == 4) and f.get('kind') != 'x' and not set(big) & set(SHA1_K) else K
                key = '%s constants' % f['q']
                if set(big) & (set(H) | set(K)):
                    if big == want: R.ok(len(want))
                    else:
                        R.bad(key, '%s: the constants of %s are %s, not %s' % (loc(f), f['q'], [hex(x) for x in big], [hex(x) for x in want]))
                else: R.bad(key, '%s: none of the constants %s in %s belongs to the algorithm' % (loc(f), [hex(x) for x in big], f['q']))

        # 5 engines
        ne = 0
        for d in U.decls:
            if d.get('t') != 'typedef' or not d['q'].startswith('sprout::random::') or d['name'] not in ENG: continue
            ne += 1; cmp(d['q'], '%s:%s' % (d['file'], d['line']), d['cty'], ENG[d['name']], 'the engine')
        R.count('engine typedefs (%s)' % un, ne)
        for v in U.vars:
            c = (v.get('clsq') or '').split('::')[-1]
            if c in SEEDS and v['name'] == 'default_seed' and v.get('init') is not None:
                try: x = E.n(v['init'])
                except Unk: und += 1; continue
                cmp(v['q'], '%s:%s' % (v['file'], v['line']), x, SEEDS[c], 'the default seed')

        # 6 uuid
        for ns, b in UUID_NS.items():
            for f in U.byq.get('sprout::uuids::namespace_%s_uuid' % ns, []):
                try: t = E.fn(f)
                except Unk as x: und += 1; continue
                cmp(f['q'], loc(f), t, [0x6b, 0xa7, 0xb8, b, 0x9d, 0xad, 0x11, 0xd1, 0x80, 0xb4, 0, 0xc0, 0x4f, 0xd4, 0x30, 0xc8], 'the identifier')
        nen = 0
        EN = {'version_unknown': -1, 'version_time_based': 1, 'version_dce_security': 2, 'version_name_based_md5': 3, 'version_random_number_based': 4, 'version_name_based_sha1': 5}
        for d in U.decls:
            if d.get('t') == 'enumc' and d.get('name') in EN and d.get('val') is not None:
                nen += 1; cmp(d['q'], '%s:%s' % (d['file'], d['line']), int(d['val']), EN[d['name']], 'the number')
        R.count('enumerators (%s)' % un, nen)

        # 7 parsers by name, io manipulators, placeholders
        npz = 0
        for v in U.vars:
            w = '%s:%s' % (v['file'], v['line']); ty = v['cty'].replace('const ', '')
            m = re.match(r'sprout::weed::(bin|oct|hex)(\d+)?(f?)$', v['q'])
            if m:
                base = {'bin': 2, 'oct': 8, 'hex': 16}[m.group(1)]; bitsn = m.group(2)
                mm = re.match(r'sprout::weed::uint_p<([\w ]+), (\d+), (\d+)(?:, (\d+))?>$', ty)
                if mm and bitsn:
                    width = {'unsigned char': 8, 'unsigned short': 16, 'unsigned int': 32, 'unsigned long': 64}.get(mm.group(1))
                    nd = -(-int(bitsn) // {2: 1, 8: 3, 16: 4}[base]); npz += 1
                    cmp(v['q'], w, (width, int(mm.group(2))), (int(bitsn), base), '(width, base)')
                    if m.group(3): cmp(v['q'], w, int(mm.group(3)), nd, 'the number of digits')
                continue
            m = re.match(r'sprout::placeholders::.*::_(\d+)$', v['q'])
            if m:
                npz += 1
                mm = re.search(r'placeholder<(\d+)', ty)
                if mm: cmp(v['q'], w, int(mm.group(1)), int(m.group(1)), 'the position')
                continue
            m = re.match(r'sprout::weed::(\w+?)(_?)$', v['q'])
            if m and v['file'].endswith('char_class.hpp'):
                mm = re.match(r'sprout::weed::(\w+)_p<(true|false)>$', ty)
                if mm: npz += 1; cmp(v['q'], w, (mm.group(1), mm.group(2)), (m.group(1), 'true' if m.group(2) else 'false'), 'the character class')
                continue
            m = re.match(r'sprout::io::(\w+)$', v['q'])
            if m:
                mm = re.match(r'sprout::io::flags::(boolean_flag|field_flag)<sprout::io::flags::(\w+)(?:, sprout::io::flags::(\w+))?>$', ty)
                if mm:
                    npz += 1
                    fld = {'dec': 'basefield', 'hex': 'basefield', 'oct': 'basefield', 'left': 'adjustfield', 'right': 'adjustfield', 'internal': 'adjustfield', 'fixed': 'floatfield', 'scientific': 'floatfield'}.get(m.group(1))
                    cmp(v['q'], w, (mm.group(2), mm.group(3)), (m.group(1), fld), 'the flag')
                    if mm.group(1) == 'boolean_flag':
                        b = [x[1] for x in walk(v['init']) if x[0] == 'bool']
                        if b: cmp(v['q'], w, b[0], 1, 'the value')
        R.count('parsers, placeholders, manipulators (%s)' % un, npz)
        R.count('undecided (%s)' % un, und)


def run(R, tier):
    check(R, tier)
    R.floor('mathematical constants (portable17)', 40); R.floor('factorial and Bernoulli tables (portable17)', 10)
    R.floor('engine typedefs (portable17)', 8); R.floor('MD5 tables (portable17)', 10)


if __name__ == '__main__':
    sys.exit(main('C10', run))
