"""C13: special values of the mathematical functions: abstract interpretation of the function bodies over a partition of the
floating-point numbers, against the table of C99 Annex F."""
import os, sys, math, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import tu, terms
from ir import loc
from check import main

INF = math.inf
NAN = ('nan',)
TOP = ('top',)
NANSIGN = '+'      # every result is derived twice, for either sign of a NaN argument


# ---- abstract values: ('nan',) | ('n', lo, lo open, hi, hi open, parity or None, sign of zero or None) | ('b', bool) | ('top',) | ('pair', a, b)
def pt(v, zs=None, par=None):
    if v == 0 and zs is None: zs = '-' if math.copysign(1, v) < 0 else '+'
    if par is None and v not in (INF, -INF) and float(v).is_integer(): par = 'even' if v % 2 == 0 else 'odd'
    return ('n', float(v), False, float(v), False, par, zs if v == 0 else None)


def iv(lo, hi, lo_o=True, hi_o=True, par=None):
    if lo == hi: return pt(lo)
    return ('n', float(lo), lo_o, float(hi), hi_o, par, None)


def ispt(a): return a[0] == 'n' and a[1] == a[3]


REG = {
    'NaN': NAN, '-inf': pt(-INF), '+inf': pt(INF), '-0': pt(-0.0), '+0': pt(0.0), '-1': pt(-1), '1': pt(1), '2': pt(2), '-2': pt(-2),
    'large negative': iv(-INF, -2.0 ** 70, par='even'), 'odd < -2': iv(-2.0 ** 23, -2, par='odd'), 'even < -2': iv(-2.0 ** 23, -2, par='even'), 'fraction < -2': iv(-2.0 ** 23, -2, par='non'),
    '(-2,-1)': iv(-2, -1, par='non'), '(-1,-1/2)': iv(-1, -.5, par='non'), '(-1/2,0)': iv(-.5, 0, par='non'),
    '(0,1/2)': iv(0, .5, par='non'), '(1/2,1)': iv(.5, 1, par='non'), '(1,2)': iv(1, 2, par='non'),
    'fraction > 2': iv(2, 2.0 ** 23, par='non'), 'even > 2': iv(2, 2.0 ** 23, par='even'), 'odd > 2': iv(2, 2.0 ** 23, par='odd'), 'large': iv(2.0 ** 70, INF, par='even'),
}
HUGE = iv(2.0 ** 31 - 1, INF, par=None)
IREG = {'0': pt(0), 'n > 0': iv(1, 100, False, False), 'n < 0': iv(-100, -1, False, False)}


# ---- comparisons and arithmetic on abstract values; results are sets
def cmp3(o, a, b):
    """-> True / False / None"""
    if TOP in (a, b) or a[0] not in ('n', 'nan') or b[0] not in ('n', 'nan'): return None
    if NAN in (a, b): return o == '!='
    lt = a[3] < b[1] or a[3] == b[1] and (a[4] or b[2])
    gt = a[1] > b[3] or a[1] == b[3] and (a[2] or b[4])
    le = a[3] <= b[1]; ge = a[1] >= b[3]
    eq = ispt(a) and ispt(b) and a[1] == b[1]
    disj = lt or gt or ispt(a) and ispt(b) and not eq or bool(a[5] and b[5] and a[5] != b[5])
    if o == '==': return True if eq else False if disj else None
    if o == '!=': return False if eq else True if disj else None
    if o == '<': return True if lt else False if ge else None
    if o == '>': return True if gt else False if le else None
    if o == '<=': return True if le else False if gt else None
    if o == '>=': return True if ge else False if lt else None


def neg(a):
    if a[0] != 'n': return a if a == NAN else TOP
    if ispt(a): return pt(-a[1], {'+': '-', '-': '+'}.get(a[6]), a[5])
    return ('n', -a[3], a[4], -a[1], a[2], a[5], None)


def sgn(a):
    """'+', '-' or None"""
    if a == NAN: return NANSIGN
    if a[0] != 'n': return None
    if ispt(a) and a[1] == 0: return a[6]
    if a[1] >= 0: return '+'
    if a[3] <= 0: return '-'


def add(a, b):
    if NAN in (a, b): return [NAN]
    if a[0] != 'n' or b[0] != 'n': return [TOP]
    if ispt(a) and ispt(b):
        if {a[1], b[1]} == {INF, -INF}: return [NAN]
        if a[1] == b[1] == 0: return [pt(0.0, a[6] if a[6] == b[6] else '+')]
        return [pt(a[1] + b[1])]
    for x, y in ((a, b), (b, a)):
        if ispt(x) and abs(x[1]) == INF: return [x]
        if ispt(x) and x[1] == 0: return [y]
    par = None
    if a[5] in ('odd', 'even') and b[5] in ('odd', 'even'): par = 'even' if a[5] == b[5] else 'odd'
    lo, hi = a[1] + b[1], a[3] + b[3]
    if lo != lo or hi != hi: return [TOP]
    if lo == hi: return [pt(lo)]
    return [('n', lo, (a[2] or b[2]) and lo > -INF, hi, (a[4] or b[4]) and hi < INF, None if par and (lo < -2.0 ** 52 or hi > 2.0 ** 52) else par, None)]


def mul(a, b):
    if NAN in (a, b): return [NAN]
    if a[0] != 'n' or b[0] != 'n': return [TOP]
    za, zb = ispt(a) and a[1] == 0, ispt(b) and b[1] == 0
    ia, ib = ispt(a) and abs(a[1]) == INF, ispt(b) and abs(b[1]) == INF
    if za and ib or zb and ia: return [NAN]
    s = None
    if sgn(a) and sgn(b): s = '+' if sgn(a) == sgn(b) else '-'
    if za or zb: return [pt(0.0, s)] if s else [('n', 0.0, False, 0.0, False, 'even', None)]
    if ia or ib:
        if a[1] < 0 < a[3] or b[1] < 0 < b[3] or not s: return [TOP]
        return [pt(INF if s == '+' else -INF)]
    if ispt(a) and a[1] == 1: return [b]
    if ispt(b) and b[1] == 1: return [a]
    c = []
    for x in (a[1], a[3]):
        for y in (b[1], b[3]):
            c.append(0.0 if 0 in (x, y) else x * y)
    lo, hi = min(c), max(c)
    par = None
    if a[5] in ('odd', 'even') and b[5] in ('odd', 'even') and max(abs(lo), abs(hi)) < 2.0 ** 52: par = 'odd' if a[5] == b[5] == 'odd' else 'even'
    if lo == hi: return [pt(lo)]
    return [('n', lo, False, hi, False, par, None)]      # the product may round to the end of the interval


def inv(a):
    if a == NAN: return [NAN]
    if a[0] != 'n': return [TOP]
    if ispt(a):
        if a[1] == 0: return [pt(INF if a[6] == '+' else -INF)] if a[6] else [TOP]
        if abs(a[1]) == INF: return [pt(0.0, '+' if a[1] > 0 else '-')]
        return [pt(1 / a[1])]
    if a[1] < 0 < a[3]: return [TOP]
    if a[1] >= 0: return [('n', 1 / a[3] if a[3] < INF else 0.0, False, 1 / a[1] if a[1] > 0 else INF, False, None, None)]
    return [neg(x) for x in inv(neg(a))]


def trunc(a):
    if a[0] != 'n' or abs(a[1]) == INF and ispt(a): return TOP
    if ispt(a): return pt(math.trunc(a[1]) + 0.0, sgn(a))
    if a[5] in ('odd', 'even'): return a
    if a[1] < 0 and a[3] <= 0:
        r = trunc(neg(a))
        return neg(r)
    if a[1] < 0: return TOP
    lo = math.floor(a[1])
    hi = INF if a[3] == INF else math.ceil(a[3]) - 1 if a[4] else math.floor(a[3])
    return pt(lo) if lo == hi else ('n', float(lo), False, float(hi), hi == INF, 'int', None)


def subset(a, r):
    """a within r; r: abstract value or a requirement list"""
    if a == NAN or r == NAN: return a == r
    if a[0] != r[0]: return False
    if a[0] == 'b': return a == r
    if a[0] == 'pair': return all(subset(x, y) for x, y in zip(a[1:], r[1:]))
    if a[0] != 'n': return False
    if ispt(a) and ispt(r) and a[1] == 0 == r[1]: return r[6] is None or a[6] == r[6]
    e = 1e-6 * max(1.0, abs(r[1]) if abs(r[1]) < INF else 1.0)
    if ispt(r) and 0 < abs(r[1]) < INF and not float(r[1]).is_integer(): return abs(a[1] - r[1]) <= e and abs(a[3] - r[1]) <= e
    if a[1] < r[1] or a[3] > r[3] or a[1] == r[1] and r[2] and not a[2] or a[3] == r[3] and r[4] and not a[4]: return False
    if r[5] == 'int': return a[5] in ('int', 'odd', 'even')
    if r[5] and a[5] != r[5] and not ispt(r): return False
    return True


def disjoint(a, r):
    if TOP in (a, r): return False
    if a == NAN or r == NAN: return a != r
    if a[0] != r[0]: return False
    if a[0] == 'b': return a != r
    if a[0] == 'pair': return any(disjoint(x, y) for x, y in zip(a[1:], r[1:]))
    if ispt(a) and ispt(r) and a[1] == 0 == r[1]: return bool(a[6] and r[6] and a[6] != r[6])
    if ispt(a):
        if ispt(r):
            if abs(a[1]) == INF or abs(r[1]) == INF: return a[1] != r[1]
            return abs(a[1] - r[1]) > 1e-6 * max(1.0, abs(r[1]))
        if a[1] < r[1] or a[1] > r[3] or a[1] == r[1] and r[2] or a[1] == r[3] and r[4]: return True
    else:
        t = 1e-6
        lo, hi = r[1] - t * (abs(r[1]) if abs(r[1]) < INF else 0), r[3] + t * (abs(r[3]) if abs(r[3]) < INF else 0)
        if a[3] < lo or a[1] > hi or a[3] == r[1] and a[4] or a[1] == r[3] and a[2]: return True
    if r[5] == 'int' and a[5] == 'non': return True
    if r[5] in ('odd', 'even') and a[5] in ('odd', 'even', 'non') and a[5] != r[5]: return True
    if r[5] == 'non' and a[5] in ('odd', 'even', 'int') and not ispt(r): return True
    return False


# ---- the specification: C99 Annex F (7.12, F.9), and the library's documentation for its own functions
def ext(f):
    def g(x):
        try: return f(x)
        except OverflowError: return INF
        except ValueError: return math.nan
    return g


def mono(f, a, dec=False):
    lo, hi = f(a[1]), f(a[3])
    lo_o, hi_o = a[2], a[4]
    if dec: lo, hi, lo_o, hi_o = hi, lo, hi_o, lo_o
    if ispt(a): return pt(lo)
    # results may round to the ends where the function is flat or steep
    return ('n', lo, lo_o and 1e-300 < abs(lo) < 1e15 or lo == 0 and False, hi, hi_o and abs(hi) < 1e15 and hi != 0, None, None)


def strict(f, a, dec=False):
    """as mono, with open ends kept where the function moves at least as fast as its argument there"""
    lo, hi = f(a[1]), f(a[3])
    lo_o, hi_o = a[2], a[4]
    if dec: lo, hi, lo_o, hi_o = hi, lo, hi_o, lo_o
    return pt(lo) if ispt(a) else ('n', lo, lo_o and abs(lo) < INF, hi, hi_o and abs(hi) < INF, None, None)


def isz(a): return ispt(a) and a[1] == 0
def isi(a): return ispt(a) and abs(a[1]) == INF
def isint(a): return a[0] == 'n' and not isi(a) and a[5] in ('odd', 'even')


e_ = math.e
exp = lambda x: 0.0 if x == -INF else ext(math.exp)(x)
exp2 = lambda x: 0.0 if x == -INF else ext(lambda v: 2.0 ** v)(x)
exp10 = lambda x: 0.0 if x == -INF else ext(lambda v: 10.0 ** v)(x)
ANYNUM = ('n', -INF, False, INF, False, None, None)


def cl(a):
    """closed hull: the value is computed, and may round to the ends"""
    return ('n', a[1], False, a[3], False, a[5], a[6]) if a[0] == 'n' else a


def s_log(f, base0=0.0):
    def g(a):
        if a[3] <= 0 and not isz(a): return NAN
        if isz(a): return pt(-INF)
        if ispt(a) and a[1] == 1: return pt(0.0)
        return cl(mono(lambda v: -INF if v == 0 else INF if v == INF else f(v), a))
    return g


def s_log1p(a):
    if isz(a): return a
    if ispt(a) and a[1] == -1: return pt(-INF)
    if a[3] <= -1: return NAN
    return cl(mono(lambda v: -INF if v == -1 else INF if v == INF else math.log1p(v), a))


def oddm(f, lim=None):
    def g(a):
        if isz(a): return a
        return cl(mono(f, a))
    return g


def s_sqrt(a):
    if isz(a): return a
    if a[3] <= 0: return NAN
    return cl(mono(lambda v: INF if v == INF else math.sqrt(v), a))


def s_logb(a):
    if isz(a): return pt(-INF)
    if isi(a): return pt(INF)
    b = a if a[1] >= 0 else neg(a)
    lo = -2000.0 if b[1] == 0 else math.floor(math.log2(b[1]))
    hi = INF if b[3] == INF else math.floor(math.log2(b[3]))
    if b[4] and hi < INF and not ispt(b) and math.log2(b[3]).is_integer(): hi -= 1
    return pt(lo) if lo == hi else ('n', float(lo), False, float(hi), hi == INF, 'int', None)


def s_round(f):
    def g(a):
        if isz(a) or isi(a) or isint(a): return a
        lo, hi = f(a[1]) if abs(a[1]) < INF else a[1], f(a[3]) if abs(a[3]) < INF else a[3]
        # open ends of a fraction interval: the integer part of what lies inside
        x = a[1] + 1e-9 * max(1, abs(a[1])); y = a[3] - 1e-9 * max(1, abs(a[3]))
        lo, hi = f(x), f(y)
        z = '-' if a[3] <= 0 else '+'
        return pt(lo + 0.0, z) if lo == hi else ('n', float(lo), False, float(hi), False, 'int', None)
    return g


def rnd(v): return math.copysign(math.floor(abs(v) + .5), v)


def s_tgamma(a):
    if isz(a): return pt(INF if a[6] == '+' else -INF)
    if isi(a): return a if a[1] > 0 else NAN
    if a[3] <= 0: return NAN if isint(a) else ('n', -INF, False, INF, False, None, None)
    if ispt(a) and a[1] in (1, 2): return pt(1)
    return iv(.88, INF, False, False) if a[1] >= 0 else ANYNUM


def s_lgamma(a):
    if isi(a): return pt(INF)
    if a[3] <= 0 and isint(a): return pt(INF)
    if ispt(a) and a[1] in (1, 2): return pt(0.0)
    if a[1] >= 2: return ('n', 0.0, a[2], INF, False, None, None)
    if a[1] >= 1 and a[3] <= 2: return ('n', -.1215, False, 0.0, False, None, None)
    if a[1] >= 0 and a[3] <= 1: return ('n', 0.0, True, INF, False, None, None) if a[3] < 1 else ('n', 0.0, False, INF, False, None, None)
    return ANYNUM


def s_cosh(a):
    b = a if a[1] >= 0 else neg(a)
    return pt(1) if isz(a) else cl(mono(ext(lambda v: INF if v == INF else math.cosh(v)), b))


def s_fabs(a):
    return neg(a) if sgn(a) == '-' else a


def copysign(m, s):
    """abstract copysign"""
    if m == NAN: return NAN
    t = sgn(s)
    if m[0] != 'n' or not t: return TOP
    mm = neg(m) if sgn(m) == '-' else m
    if sgn(m) is None: return TOP
    return mm if t == '+' else neg(mm)


ONE = {
    'sqrt': s_sqrt, 'cbrt': oddm(lambda v: v if abs(v) == INF else math.copysign(abs(v) ** (1 / 3), v)),
    'exp': lambda a: pt(1) if isz(a) else cl(mono(exp, a)), 'exp2': lambda a: pt(1) if isz(a) else cl(mono(exp2, a)), 'exp10': lambda a: pt(1) if isz(a) else cl(mono(exp10, a)),
    'expm1': oddm(lambda v: -1.0 if v == -INF else INF if v == INF else ext(math.expm1)(v)),
    'log': s_log(math.log), 'log2': s_log(math.log2), 'log10': s_log(math.log10), 'log1p': s_log1p, 'logb': s_logb, 'logb2': s_logb,
    'sin': lambda a: a if isz(a) else NAN if isi(a) else iv(-1, 1, False, False), 'cos': lambda a: pt(1) if isz(a) else NAN if isi(a) else iv(-1, 1, False, False),
    'tan': lambda a: a if isz(a) else NAN if isi(a) else ANYNUM,
    'asin': lambda a: a if isz(a) else NAN if a[1] >= 1 and not (ispt(a) and a[1] == 1) or a[3] <= -1 and not (ispt(a) and a[1] == -1) else cl(mono(math.asin, a)),
    'acos': lambda a: NAN if a[1] >= 1 and not (ispt(a) and a[1] == 1) or a[3] <= -1 and not (ispt(a) and a[1] == -1) else cl(mono(math.acos, a, True)),
    'atan': oddm(math.atan), 'sinh': oddm(ext(lambda v: v if abs(v) == INF else math.copysign(ext(math.sinh)(abs(v)), v))), 'cosh': s_cosh, 'tanh': oddm(math.tanh),
    'asinh': oddm(math.asinh), 'acosh': lambda a: NAN if a[3] <= 1 and not (ispt(a) and a[1] == 1) else cl(mono(lambda v: INF if v == INF else math.acosh(v), a)),
    'atanh': lambda a: a if isz(a) else pt(math.copysign(INF, a[1])) if ispt(a) and abs(a[1]) == 1 else NAN if a[1] >= 1 or a[3] <= -1 else cl(mono(lambda v: math.copysign(INF, v) if abs(v) == 1 else math.atanh(v), a)),
    'erf': oddm(math.erf), 'erfc': lambda a: cl(mono(math.erfc, a, True)), 'tgamma': s_tgamma, 'lgamma': s_lgamma,
    'floor': s_round(math.floor), 'ceil': s_round(math.ceil), 'trunc': s_round(math.trunc), 'round': s_round(rnd), 'integer_part': s_round(math.trunc),
    'fabs': s_fabs, 'abs': s_fabs,
    'fractional_part': lambda a: pt(0.0, sgn(a)) if isi(a) or isz(a) else ('n', 0.0, False, 0.0, False, None, None) if isint(a) else iv(-1, 0) if sgn(a) == '-' else iv(0, 1),
}


def b(x): return ('b', bool(x))


IMIN = pt(-2147483648.0)
PRED = {
    'isnan': lambda a: b(a == NAN), 'isinf': lambda a: b(a != NAN and isi(a)), 'isfinite': lambda a: b(a != NAN and not isi(a)), 'iszero': lambda a: b(a != NAN and isz(a)),
    'isnormal': lambda a: TOP if a != NAN and not ispt(a) and 0 in (a[1], a[3]) else b(a != NAN and not isi(a) and not isz(a)),
    'issubnormal': lambda a: TOP if a != NAN and not ispt(a) and 0 in (a[1], a[3]) else b(False),
    'signbit': lambda a: TOP if not sgn(a) else b(sgn(a) == '-'),
    'is_integer': lambda a: b(isint(a)), 'is_odd': lambda a: b(isint(a) and a[5] == 'odd'), 'is_even': lambda a: b(isint(a) and a[5] == 'even'),
    'fpclassify': lambda a: pt(0) if a == NAN else pt(1) if isi(a) else pt(2) if isz(a) else ('n', 3.0, False, 4.0, False, None, None) if not ispt(a) and 0 in (a[1], a[3]) else pt(4),
    'ilogb': lambda a: IMIN if a == NAN or isz(a) else pt(2147483647.0) if isi(a) else s_logb(a),
    'ilogb2': lambda a: IMIN if a == NAN or isz(a) else pt(2147483647.0) if isi(a) else s_logb(a),
    'float_exponent': lambda a: pt(0) if a == NAN or isz(a) or isi(a) else add(s_logb(a), pt(1))[0],
    'float2_exponent': lambda a: pt(0) if a == NAN or isz(a) or isi(a) else add(s_logb(a), pt(1))[0],
    'float_significand': lambda a: a if a == NAN or isz(a) or isi(a) else iv(.5, 1, False, True) if sgn(a) == '+' else iv(-1, -.5, True, False),
    'float2_significand': lambda a: a if a == NAN or isz(a) or isi(a) else iv(.5, 1, False, True) if sgn(a) == '+' else iv(-1, -.5, True, False),
    'float_sig_exp': lambda a: ('pair', a, pt(0)) if a == NAN or isz(a) or isi(a) else ('pair', iv(.5, 1, False, True) if sgn(a) == '+' else iv(-1, -.5, True, False), add(s_logb(a), pt(1))[0]),
    'float2_sig_exp': lambda a: ('pair', a, pt(0)) if a == NAN or isz(a) or isi(a) else ('pair', iv(.5, 1, False, True) if sgn(a) == '+' else iv(-1, -.5, True, False), add(s_logb(a), pt(1))[0]),
    'frac_int': lambda a: ('pair', NAN, NAN) if a == NAN else ('pair', ONE['fractional_part'](a), ONE['trunc'](a)),
}

for _n, _f in (('iround', rnd), ('lround', rnd), ('llround', rnd), ('itrunc', math.trunc), ('iceil', math.ceil), ('ifloor', math.floor)):
    PRED[_n] = (lambda g: lambda a: pt(-2.0 ** 63) if a == NAN or isi(a) else TOP if max(abs(a[1]), abs(a[3])) > 2.0 ** 30 else nozs(g(a)))(s_round(_f))


def nozs(a): return a[:6] + (None,) if a[0] == 'n' else a


def s_fmod(x, y):
    if NAN in (x, y): return NAN
    if isi(x) or isz(y): return NAN
    if isz(x) or isi(y): return x
    m = s_fabs(y)
    hi = m[3]
    if sgn(x) == '-': return ('n', -hi, hi < INF, 0.0, False, None, None)
    return ('n', 0.0, False, hi, hi < INF, None, None)


def s_remainder(x, y):
    if NAN in (x, y): return NAN
    if isi(x) or isz(y): return NAN
    if isz(x) or isi(y): return x
    hi = s_fabs(y)[3]
    return ('n', -hi / 2, False, hi / 2, False, None, None)


def s_hypot(x, y):
    if x != NAN and isi(x) or y != NAN and isi(y): return pt(INF)
    if NAN in (x, y): return NAN
    x, y = s_fabs(x), s_fabs(y)
    if isz(x): return y
    if isz(y): return x
    return ('n', max(x[1], y[1]), False, INF if INF in (x[3], y[3]) else x[3] + y[3], False, None, None)


def s_pow(x, y):
    one = lambda a: a != NAN and ispt(a) and a[1] == 1
    if one(x) or y != NAN and isz(y): return pt(1)
    if NAN in (x, y): return NAN
    odd = isint(y) and y[5] == 'odd'
    yneg = y[3] <= 0
    if isz(x):
        if yneg: return pt(-INF if odd and x[6] == '-' else INF)
        return x if odd else pt(0.0)
    if isi(y):
        if ispt(x) and x[1] == -1: return pt(1)
        small = x[1] >= -1 and x[3] <= 1
        return (pt(INF) if small else pt(0.0)) if yneg else (pt(0.0) if small else pt(INF))
    if isi(x):
        if x[1] < 0:
            if yneg: return pt(0.0, '-' if odd else '+')
            return pt(-INF) if odd else pt(INF)
        return pt(0.0) if yneg else pt(INF)
    if x[3] <= 0 and y[5] == 'non': return NAN
    if x[3] <= 0: return ('n', -INF, False, 0.0, False, None, None) if odd else ('n', 0.0, False, INF, False, None, None) if isint(y) else ANYNUM
    big = x[1] >= 1
    return ('n', 1.0, False, INF, False, None, None) if big != yneg else ('n', 0.0, False, 1.0, False, None, None)


def s_atan2(y, x):
    if NAN in (x, y): return NAN
    P = math.pi
    s = (lambda v: pt(v if sgn(y) == '+' else -v, sgn(y)))
    if isz(y): return s(P) if sgn(x) == '-' else y
    if isz(x): return s(P / 2)
    if isi(x): return (s(3 * P / 4) if isi(y) else s(P)) if x[1] < 0 else (s(P / 4) if isi(y) else s(0.0))
    if isi(y): return s(P / 2)
    lo, hi = (0.0, P / 2) if sgn(x) == '+' else (P / 2, P)
    return iv(lo, hi, False, False) if sgn(y) == '+' else iv(-hi, -lo, False, False)


def s_fdim(x, y):
    if NAN in (x, y): return NAN
    g = cmp3('>', x, y)
    if g is None: return ('n', 0.0, False, INF, False, None, None)
    if not g: return pt(0.0)
    return pt(INF) if isi(x) or isi(y) else cl(add(x, neg(y))[0])


def pick(less):
    def g(x, y):
        if x == NAN: return y
        if y == NAN: return x
        if isz(x) and isz(y): return x if x == y else ('n', 0.0, False, 0.0, False, 'even', None)
        l = cmp3('<', x, y); q = cmp3('>', x, y)
        if l: return x if less else y
        if q: return y if less else x
        if x == y: return ('n', x[1], x[2], x[3], x[4], x[5], x[6])
        lo = min(x[1], y[1]) if less else max(x[1], y[1])
        hi = min(x[3], y[3]) if less else max(x[3], y[3])
        return ('n', lo, False, hi, False, None, None)
    return g


def rel(o):
    def g(x, y):
        if NAN in (x, y): return b(False)
        if o == '<>':
            r = cmp3('!=', x, y)
        else: r = cmp3(o, x, y)
        return TOP if r is None else b(r)
    return g


def s_ldexp(x, n):
    if x == NAN or isi(x) or isz(x): return x
    if ispt(n) and n[1] == 0: return x
    return ('n', 0.0, False, INF, False, None, None) if sgn(x) == '+' else ('n', -INF, False, 0.0, False, None, None)


def s_fma(x, y, z):
    if NAN in (x, y): return NAN
    if isi(x) and isz(y) or isz(x) and isi(y): return NAN
    if z == NAN: return NAN
    if isi(x) or isi(y):
        s = '+' if sgn(x) == sgn(y) else '-'
        if isi(z): return z if sgn(z) == s else NAN
        return pt(INF if s == '+' else -INF)
    if isi(z): return z
    return ANYNUM


TWO = {'fmod': s_fmod, 'remainder': s_remainder, 'hypot': s_hypot, 'pow': s_pow, 'atan2': s_atan2, 'fdim': s_fdim, 'fmax': pick(False), 'fmin': pick(True), 'copysign': copysign,
       'isgreater': rel('>'), 'isgreaterequal': rel('>='), 'isless': rel('<'), 'islessequal': rel('<='), 'islessgreater': rel('<>'), 'isunordered': lambda x, y: b(NAN in (x, y)),
       'rem_quo': lambda x, y: ('pair', s_remainder(x, y), TOP),
       'quotient': lambda x, y: nozs(pt(0.0)) if NAN in (x, y) or isi(x) or isz(x) or isz(y) or isi(y) else None}
INT2 = {'ldexp': s_ldexp, 'scalbn': s_ldexp, 'scalbln': s_ldexp}
THREE = {'fma': s_fma}


def spec(name, regs):
    if len(regs) == 1:
        if name in PRED: return PRED[name](regs[0])
        if name in ONE: return NAN if regs[0] == NAN else ONE[name](regs[0])
    if len(regs) == 2:
        if name in TWO: return TWO[name](*regs)
        if name in INT2: return INT2[name](*regs)
    if len(regs) == 3 and name in THREE: return THREE[name](*regs)
    return None


# ---- the interpreter
class Interp:
    def __init__(self, U):
        self.U = U
        self.E = terms.Evaluator(U)
        self.cache = {}
        self.memo = {}
        self.toint = False
        self.mixed = False
        self.byn = {}
        for f in U.fns:
            if f['q'].startswith(('sprout::math::', 'sprout::detail::')) and 'body' in f and not f.get('inst') and not f.get('clsq'):
                self.byn.setdefault(f['q'], []).append(f)

    def term(self, f):
        i = f['id']
        if i not in self.cache:
            try: self.cache[i] = terms.pure(self.E.function(f))
            except (terms.Give, terms.TooBig): self.cache[i] = None
        return self.cache[i]

    def overload(self, q, n):
        if q.startswith('sprout::') and q.count('::') == 1: q = 'sprout::math::' + q[8:]
        c = [f for f in self.byn.get(q, ()) if len(f['params']) == n]
        fl = [f for f in c if any(t[1] == 'FloatType' for t in f.get('tp') or ())]
        if len(fl) == 1: return fl[0]
        if len(c) == 1: return c[0]
        return None

    def call(self, f, args, depth):
        """-> list of abstract values"""
        if depth > 8: return [TOP]
        t = self.term(f)
        if t is None: return [TOP]
        self.fuel -= 1
        if self.fuel < 0: return [TOP]
        key = (f['id'], tuple(args))
        if key in self.memo: return self.memo[key]
        save = self.toint
        self.toint = bool(f.get('tp')) and f['tp'][0][1] in ('To', 'R')
        r = self.ev(t, args, depth)
        self.toint = save
        if self.fuel >= 0 and (depth <= 1 or TOP not in r): self.memo[key] = r
        return r

    def ev(self, t, A, d):
        k = t[0]
        if k == 'p': return [A[t[1]]] if t[1] < len(A) else [TOP]
        if k == 'lit':
            try:
                if t[1] == 'bool': return [b(t[2] == '1')]
                if t[1] in ('int', 'float'): return [pt(float(t[2].rstrip('fFlLuU')))]
            except ValueError: pass
            return [TOP]
        if k == 'cond':
            c = set(self.ev(t[1], A, d))
            r = []
            for x in c:
                v = x[1] if x[0] == 'b' else cmp3('!=', x, pt(0.0)) if x[0] in ('n', 'nan') else None
                if v is not False: r.append(2)
                if v is not True: r.append(3)
            out = []
            for i in sorted(set(r)): out += self.ev(t[i], A, d)
            return list(dict.fromkeys(out))
        if k == 'op': return self.op(t[1], t[2], A, d)
        if k == 'new':
            if 'pair' in t[1] and len(t[2]) == 2:
                return [('pair', x, y) for x in self.ev(t[2][0], A, d) for y in self.ev(t[2][1], A, d)]
            if len(t[2]) == 1: return self.ev(('cast', t[1], t[2][0]), A, d)
            if not t[2]: return [pt(0.0)]
            return [TOP]
        if k == 'cast':
            v = self.ev(t[2], A, d)
            if 'make_unsigned' in t[1]: return [HUGE if x[0] == 'n' and x[3] < 0 else x for x in v]
            if any(s in t[1] for s in ('float_compute', 'FloatType', 'float_promote', 'double', 'float')) or t[1].startswith('type-parameter-0-') and not (self.toint and t[1].startswith('type-parameter-0-0')): return v
            if any(s in t[1] for s in ('int', 'long', 'uintmax')) or t[1].startswith('type-parameter-0-0'): return [TOP if x[0] != 'n' else trunc(x) for x in v]
            return v if all(isint(x) or x == NAN or x[0] == 'b' for x in v) else [TOP]
        if k == 'f':
            r = []
            for x in self.ev(t[2], A, d): r.append((x[1] if t[1] == 'first' else x[2]) if x[0] == 'pair' and t[1] in ('first', 'second') else TOP)
            return r
        if k in ('call', 'ds'):
            q = t[1] if k == 'call' else t[1] + t[2]
            xs = (t[3] if k == 'call' else t[4]) or ()
            n = q.split('::')[-1]
            if 'numeric_limits' in q:
                f = 'To' not in q and 'FloatType' in q or 'float' in q or 'double' in q or '<T>' in q
                if n == 'infinity': return [pt(INF)]
                if n == 'quiet_NaN': return [NAN]
                if n == 'max' and 'unsigned long' in q: return [pt(2.0 ** 64)]
                if '<To>' in q or '<long' in q or '<int' in q: return [pt(-2.0 ** 63)] if n == 'min' else [pt(2.0 ** 63)] if n == 'max' else [TOP]      # any signed type wide enough for the small regions
                return [TOP]
            args = [self.ev(x, A, d) for x in xs]
            f = self.overload(q, len(xs))
            out = []
            for c in itertools.product(*args):
                if n.startswith('builtin_') and '::detail::' in q:
                    m = n[8:]
                    if f is None and q in self.byn: pass
                    s = copysign(*c) if m == 'copysign' else spec(m, c) if all(x[0] in ('n', 'nan') for x in c) else None
                    out.append(TOP if s is None else s); continue
                if f is None: out.append(TOP); continue
                out += self.call(f, list(c), d + 1)
            return list(dict.fromkeys(out))[:40]
        return [TOP]

    def op(self, o, xs, A, d):
        vs = [self.ev(x, A, d) for x in xs]
        if o in ('&&', '||'):
            out = []
            for x in vs[0]:
                v = x[1] if x[0] == 'b' else None
                if o == '&&' and v is False or o == '||' and v is True: out.append(x); continue
                for y in vs[1]:
                    w = y[1] if y[0] == 'b' else None
                    if v is None: out.append(b(w) if w is (o == '||') else TOP)
                    else: out.append(y if w is not None else TOP)
            return list(dict.fromkeys(out))
        out = []
        for c in itertools.product(*vs):
            if o == 'u!': out.append(b(not c[0][1]) if c[0][0] == 'b' else TOP)
            elif o == 'u-': out.append(neg(c[0]))
            elif o in ('==', '!=', '<', '>', '<=', '>='):
                if self.mixed and all(y[0] == 'p' or y[0] == 'cast' and y[2][0] == 'p' for y in xs): c = [HUGE if y[0] == 'n' and y[3] < 0 else y for y in c]
                if c[0][0] == 'b' and c[1][0] == 'b' and o in ('==', '!='): out.append(b((c[0] == c[1]) == (o == '=='))); continue
                same = xs[0] == xs[1] and c[0] == c[1] and c[0][0] == 'n'
                r = (o in ('==', '<=', '>=')) if same else cmp3(o, c[0], c[1])
                out.append(TOP if r is None else b(r))
            elif o == '^' and c[0][0] == 'b' and c[1][0] == 'b': out.append(b(c[0][1] != c[1][1]))
            elif o == '+': out += add(c[0], c[1])
            elif o == '-': out += [pt(0.0)] if xs[0] == xs[1] and c[0] == c[1] and c[0][0] == 'n' and not isi(c[0]) else add(c[0], neg(c[1]))
            elif o == '*': out += mul(c[0], c[1])
            elif o == '/':
                if xs[0] == xs[1] or c[0] != NAN and isi(c[0]) and c[1] != NAN and c[1] != TOP and isi(c[1]): out.append(NAN if c[0] == NAN or c[0][0] == 'n' and (isi(c[0]) or isz(c[0])) else TOP); continue
                if c[0][0] == 'n' and c[1][0] == 'n' and isz(c[0]) and isz(c[1]): out.append(NAN); continue
                for y in inv(c[1]): out += mul(c[0], y)
            else: out.append(TOP)
        return list(dict.fromkeys(out))[:40]


def vs(a):
    if a == NAN: return 'NaN'
    if a == TOP: return '?'
    if a[0] == 'b': return 'true' if a[1] else 'false'
    if a[0] == 'pair': return '{%s, %s}' % (vs(a[1]), vs(a[2]))
    if ispt(a): return (a[6] or '+-') + '0' if a[1] == 0 else '%g' % a[1]
    return '%s%g, %g%s' % ('(' if a[2] else '[', a[1], a[3], ')' if a[4] else ']') + (' ' + {'non': 'not an integer', 'int': 'integer'}.get(a[5], a[5]) if a[5] else '')


def check(R, tier):
    R.rule('Each function of sprout/math whose special values C99 Annex F (or the library itself) fixes is interpreted abstractly, argument region by argument region (%d regions of the floating-point line: NaN, infinities, signed zeros, '
           'units, odd, even, fractional and large numbers), in the configuration with the compiler\'s functions and in the one without. Wherever a result can be derived it must lie in the set the standard allows for that region.' % len(REG))
    R.assume += ['Results of series, recursions and C library functions are taken as unknown numbers; their accuracy is not decided.', 'The sign of a NaN is not looked at.']
    if tier == 'thorough': units = ('gcc17', 'portable17', 'gcc11', 'portable11')
    else: units = ('gcc17', 'portable17')
    for un in units:
        U = tu.header_units((un,))[un]
        I = Interp(U)
        builtins(R, U, un)
        mixed(R, U, un, I)
        for name in sorted(set(ONE) | set(PRED) | set(TWO) | set(INT2) | set(THREE)):
            n = 1 if name in ONE or name in PRED else 3 if name in THREE else 2
            f = I.overload('sprout::math::' + name, n)
            if f is None:
                cs = [x for x in I.byn.get('sprout::math::' + name, ()) if len(x['params']) == n and any('is_floating_point' in str(t) for t in x.get('tp') or ())]
                f = cs[0] if len(cs) == 1 else None
            if f is None:
                R.count('functions not found'); R.notes.append('%s: %s/%d not found' % (un, name, n)); continue
            R.count('functions')
            small = {k: REG[k] for k in ('NaN', '-inf', '+inf', '-0', '+0', '-1', '2', '(0,1/2)')} if n == 3 else REG
            sets = [small] * n if name not in INT2 else [REG, IREG]
            for combo in itertools.product(*[s.items() for s in sets]):
                regs = [v for _, v in combo]
                what = '%s(%s)' % (name, ', '.join(k for k, _ in combo))
                left = dec = 0
                for ns in '+-' if NAN in regs else '+':
                    global NANSIGN
                    NANSIGN = ns
                    want = spec(name, regs)
                    if want is None or want == TOP: continue
                    I.fuel = 400
                    if NAN in regs: I.memo.clear()
                    got = I.call(f, regs, 0)
                    if got and all(disjoint(g, want) for g in got):
                        key = '%s %s' % (un[:-2], what)
                        R.bad(key, '%s: sprout::math::%s gives %s, not %s, in the configuration %s' % (loc(f), what, ' or '.join(map(vs, got[:3])), vs(want), 'with built-in functions' if un.startswith('gcc') else 'without built-in functions'))
                        break
                    elif all(g != TOP and subset(g, want) for g in got): dec += 1
                    else: left += 1
                else:
                    if left: R.count('regions left open (computed)')
                    elif dec:
                        R.ok(); R.count('regions decided')
                        R.sample('%s: %s = %s' % (un, what, ' or '.join(map(vs, got[:2]))))
                NANSIGN = '+'
    R.floor('functions', 100)
    R.floor('regions decided', 2500)


def mixed(R, U, un, I):
    """sprout::math::less etc. compare integers of different signedness by value"""
    ints = {k: v for k, v in REG.items() if v != NAN and isint(v) and k not in ('-0', 'large', 'large negative')}
    ops = {'less': '<', 'greater': '>', 'less_equal': '<=', 'greater_equal': '>='}
    for f in U.fns:
        if f['q'].rsplit('::', 1)[0] != 'sprout::math::detail' or f['name'] not in ops or 'body' not in f or f.get('inst') or len(f['params']) != 2: continue
        tp = str(f.get('tp'))
        if 'is_integral' not in tp: continue
        if 'is_unsigned<IntType1>::value == ' in tp: u = (0, 0)
        elif 'is_signed<IntType1>' in tp: u = (0, 1)
        elif 'is_signed<IntType2>' in tp: u = (1, 0)
        else: continue
        R.count('integer comparisons')
        I.memo.clear()
        for (kx, x), (ky, y) in itertools.product(ints.items(), ints.items()):
            if u[0] and x[1] < 0 or u[1] and y[1] < 0: continue
            I.fuel = 100
            I.mixed = u[0] != u[1]
            got = I.call(f, [x, y], 0)
            want = cmp3(ops[f['name']], x, y)
            if want is None: continue
            if all(disjoint(g, b(want)) for g in got):
                R.bad('%s(%s,%s) of signedness %s' % (f['name'], kx, ky, u), '%s: sprout::math::%s(%s, %s) with %s is %s' % (loc(f), f['name'], kx, ky, ('signed', 'unsigned')[u[0]] + ' and ' + ('signed', 'unsigned')[u[1]], 'false' if want else 'true'))
            elif got == [b(want)]: R.ok()
            else: R.count('regions left open (computed)')
    I.mixed = False
    I.memo.clear()


def builtins(R, U, un):
    """detail::builtin_X(T x, ..) is __builtin_X of the same parameters in the same order, in the variant of its type"""
    for f in U.fns:
        if not f['q'].startswith('sprout::math::detail::builtin_') or 'body' not in f or f.get('inst') or f.get('tp'): continue
        name = f['name'][8:]
        try: t = terms.pure(terms.Evaluator(U).function(f))
        except (terms.Give, terms.TooBig): t = None
        while t and t[0] == 'cast': t = t[2]
        if not t or t[0] != 'call' or not t[1].startswith('__builtin_'):
            R.count('wrappers of another form'); continue
        R.count('built-in wrappers')
        n = t[1][10:]
        ty = f['params'][0][3] if f['params'] else ''
        sfx = {'float': ('f', ''), 'double': ('',), 'long double': ('l', '')}.get(ty, ('',))
        pure_cls = name.startswith('is') or name in ('signbit', 'fpclassify')
        ok_name = n in [name + s for s in sfx[:1]] or pure_cls and n in [name + s for s in ('', 'f', 'l')] or name == 'isnan' and n.startswith('isnan')
        a = [x for x in t[3] if x[0] == 'p' or x[0] == 'cast' and x[2][0] == 'p']
        order = [x[1] if x[0] == 'p' else x[2][1] for x in a] == list(range(len(f['params'])))
        if name == 'fpclassify':
            if [x[2] for x in t[3][:5] if x[0] == 'lit'] not in ([], ['0', '1', '4', '3', '2']): order = False
        if not ok_name or not order:
            R.bad('%s %s(%s)' % (un[:-2], f['q'], ty), '%s: %s(%s) calls %s' % (loc(f), f['q'], ty, terms.show(t)))
        else: R.ok()


if __name__ == '__main__':
    sys.exit(main('C13', check))
