#!/usr/bin/env python3
"""Development-time generator of tables/witness.txt: one instantiation per public template and archetype environment that type-checks on the tree it is run on."""
import sys, os, re, json, subprocess, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import tu
from concurrent.futures import ThreadPoolExecutor

A4 = 'sprout::array<int, 4>'
CONT = {'Container', 'Container1', 'Container2', 'Result', 'InputRange', 'InputRange1', 'InputRange2', 'ForwardRange', 'ForwardRange1', 'ForwardRange2', 'BidirectionalRange', 'BidirectionalRangeSource',
        'RandomAccessRange', 'Range', 'Range1', 'Range2', 'LRange', 'RRange', 'Cont', 'Input', 'InputRangeInput', 'PopRange', 'Output', 'OutputRange', 'Sequence', 'Seq', 'Seq1', 'Seq2'}
RIT = {'InputIterator', 'InputIterator1', 'InputIterator2', 'Iterator', 'Iterator1', 'Iterator2', 'LIterator', 'RIterator', 'LIterator1', 'LIterator2', 'RIterator1', 'RIterator2', 'SrcIterator',
       'SrcIterator1', 'SrcIterator2', 'InputIteratorInput', 'PopulationIterator', 'BidirectionalIteratorSource', 'Elements'}
FIT = {'ForwardIterator', 'ForwardIterator1', 'ForwardIterator2'}
BIT = {'BidirectionalIterator', 'BidirectionalIterator1', 'BidirectionalIterator2'}
RAIT = {'RandomAccessIterator', 'RandomAccessIterator1', 'RandomAccessIterator2'}
OIT = {'OutputIterator', 'OutputIterator1', 'OutputIterator2', 'DstIterator', 'DstIterator1', 'DstIterator2', 'SampleIterator'}
VAL = {'T', 'U', 'T1', 'T2', 'T3', 'Value', 'Value1', 'Value2', 'X', 'A', 'B', 'Arg', 'Arg1', 'Arg2', 'Type', 'V', 'Init', 'Head', 'Tail', 'Element', 'R', 'Ret', 'From', 'To', 'Unit', 'Incrementable', 'Incrementable1', 'Incrementable2'}
INT = {'IntType', 'Integral', 'Size', 'Difference', 'Difference1', 'Difference2', 'Distance'}
RNG = {'UniformRandomNumberGenerator', 'URNG', 'Engine', 'RandomNumberGenerator'}
UNF = {'UnaryOperation', 'UnaryFunction', 'Generator', 'F', 'Function', 'Fn', 'UnaryOrBinaryFunction', 'UnaryOrBinaryFunction1', 'UnaryOrBinaryFunction2', 'Converter'}
NV = {'N': '4', 'N1': '3', 'N2': '5', 'M': '4', 'I': '0', 'C': 'false', 'Size': '4', 'bits': '16', 'BufferSize': '16', 'Limit': '4', 'R': '2', 'Base': '10', 'Separated': 'false', 'Separated1': 'false', 'Separated2': 'false', 'To': '3',
      'RetV': 'sprout::range::return_found', 'Value': '3', 'Seed': '5', 'Mask': '1', 'Flag': 'true'}
PACKS = {'Types': ['int', 'double'], 'Args': ['int', 'int'], 'Values': ['int', 'int'], 'UTypes': ['int', 'double'], 'TTypes': ['int', 'double'], 'BoundArgs': ['int'], 'Inits': ['int'], 'Ts': ['int', 'double'], 'Containers': [A4], 'Tuples': ['sprout::tuple<int>', 'sprout::tuple<double>'],
         'Elements': ['int', 'int'], 'Iterators': ['int const*', 'int const*'], 'Us': ['int', 'double'], 'Arrays': [A4]}
ENVS = {
    'ra': dict(it=A4 + '::const_iterator', out=A4 + '::iterator', fit=A4 + '::iterator', v='int', cont=A4),
    'fwd': dict(it='arch::cfwd', out='arch::fwd', fit='arch::fwd', bit='arch::bid', v='int', cont=A4),
    'dbl': dict(it='sprout::array<double, 4>::const_iterator', out='double*', fit='double*', v='double', cont='sprout::array<double, 4>'),
    'lv': dict(it='int const*', out='int*', fit='int*', v='int', cont=A4 + '&'),
    'clv': dict(it='int const*', out='int*', fit='int*', v='long', cont=A4 + ' const&'),
}
ISDET = re.compile(r'(^|_)(detail|impl)(_|$)|^detail|_impl$|_detail$')


def isd(q):
    if q.split("::")[-1] in ("dyn_cast", "dynamic_pointer_cast"): return True
    d = 0; parts = ['']
    for c in q:
        if c == '<': d += 1
        elif c == '>': d -= 1
        elif d == 0: parts[-1] += c
    return any(ISDET.search(c) for c in ''.join(parts).split('::'))


def bind(tp, env, ch):
    """template parameters -> {name: text} or None"""
    e = ENVS[env]; r = {}
    names = {t[1] for t in tp}
    for t in tp:
        k, n, pack = t[0], t[1], t[2]
        if not n: continue
        if pack:
            if n not in PACKS or k != 't': return None
            r[n] = list(PACKS[n]); continue
        if k == 'v':
            if n not in NV: return None
            r[n] = NV[n]; continue
        if k != 't': return None
        if n in ('Elem', 'Char', 'CharT') or n == 'T' and ('Traits' in names or ch): r[n] = 'char'
        elif n == 'Traits': r[n] = 'sprout::char_traits<char>' if ch else 'std::char_traits<char>'
        elif n == 'Result': r[n] = A4 if e['v'] != 'double' else 'sprout::array<double, 4>'
        elif n in CONT: r[n] = e['cont']
        elif n in RIT: r[n] = e['it']
        elif n in FIT: r[n] = e['fit']
        elif n in BIT: r[n] = e.get('bit', e['fit'])
        elif n in RAIT: r[n] = A4 + '::iterator'
        elif n in OIT: r[n] = e['out']
        elif n in ('FloatType', 'RealType', 'ArithmeticType1', 'ArithmeticType2', 'ArithmeticType', 'ArithmeticType3'): r[n] = {'ra': 'double', 'fwd': 'float', 'dbl': 'long double', 'lv': 'double', 'clv': 'int'}[env] if n not in ('FloatType', 'RealType') or env != 'clv' else 'double'
        elif n in INT: r[n] = 'int' if env != 'dbl' else 'long'
        elif n == 'UIntType': r[n] = 'unsigned'
        elif n in VAL: r[n] = e['v']
        elif n in ('Compare', 'Compare1', 'Compare2'): r[n] = 'sprout::less<>'
        elif n == 'Predicate': r[n] = 'arch::pred'
        elif n == 'BinaryPredicate': r[n] = 'sprout::equal_to<>'
        elif n in ('BinaryOperation', 'BinaryOperation1', 'BinaryOperation2', 'BinaryFunction', 'BinaryOp'): r[n] = 'sprout::plus<>'
        elif n == 'Generator': r[n] = 'arch::gen'
        elif n in UNF: r[n] = 'arch::un'
        elif n in RNG: r[n] = 'sprout::random::minstd_rand0' + {'lv': '&', 'clv': ' const&'}.get(env, '')
        elif n == 'Distribution': r[n] = 'sprout::random::uniform_int_distribution<int>'
        elif n in ('Tuple', 'Tup', 'InputTuple'): r[n] = 'sprout::tuple<int, double>' + {'lv': '&', 'clv': ' const&'}.get(env, '')
        elif n in ('Searcher',): r[n] = 'arch::un'
        elif n == 'StreamTraits': r[n] = 'std::char_traits<char>'
        elif n == 'Subscript': r[n] = 'sprout::subscript_index'
        elif n == 'OptionalPointee': r[n] = 'sprout::optional<int>'
        elif n == 'Color': r[n] = 'sprout::darkroom::colors::rgb_f'
        elif n == 'Visitor': r[n] = 'arch::un'
        elif n == 'Visitable': r[n] = 'sprout::variant<int, double>'
        else: return None
    return r


def subst(ty, b, cls=None):
    """textual substitution of template parameter names; returns list of types (several for a pack)"""
    packs = [n for n, v in b.items() if isinstance(v, list)]
    if ty.endswith('...'):
        core = ty[:-3].strip()
        ps = [n for n in packs if re.search(r'\b%s\b' % n, core)]
        if not ps: return None
        out = []
        for i in range(len(b[ps[0]])):
            bb = {n: (v[i] if isinstance(v, list) and i < len(v) else v) for n, v in b.items()}
            if any(isinstance(v, list) for n, v in bb.items() if re.search(r'\b%s\b' % n, core)): return None
            out.append(sub1(core, bb))
        return out
    for n in packs:
        ty = re.sub(r'\b%s *\.\.\.' % n, ', '.join(b[n]), ty)
        if re.search(r'(?<!::)\b%s\b' % n, ty): return None
    return [sub1(ty, {n: v for n, v in b.items() if not isinstance(v, list)})]


def sub1(ty, b):
    def f(m):
        return b[m.group(0)]
    if not b: return ty
    rx = re.compile(r'(?<![:\w])(%s)\b(?!\s*::\s*~)' % '|'.join(sorted(map(re.escape, b), key=len, reverse=True)))
    s = rx.sub(f, ty)
    # reference collapsing and const on references in text
    m = re.match(r'^(const )?(.*?) ?(&|&&)?$', s)
    core, ref = m.group(2), m.group(3) or ''
    if core.endswith('&'):
        return core
    return s


def usable(b, tys):
    return all('type-parameter' not in t and '(lambda' not in t for t in tys)


def main():
    U = tu.header_units(('portable17',))['portable17']
    W = []
    seen = set()

    def add(kind, key, text):
        if text in seen: return
        seen.add(text); W.append((kind, key, text))
    rec = {}
    for d in U.recs:
        if d['t'] == 'rec' and d.get('tp') and not d.get('spec') and not isd(d['q']) and d['q'].startswith('sprout::'): rec[d['q']] = d
    # functions
    for f in U.fns:
        if not f['q'].startswith('sprout') or f.get('inst') or isd(f['q']) or f['kind'] != 'fn' or f.get('deleted') or f.get('fr') or f.get('clsq') or '::<' in f['q'] or '(anonymous' in f['q']: continue
        tp = f.get('tp') or []
        if not tp: continue
        for ch in (0, 1):
            if ch and not any(t[1] == 'Traits' for t in tp): continue
            for env in ENVS:
                b = bind(tp, env, ch)
                if b is None: continue
                args = []
                okk = True
                for p in f['params']:
                    t = subst(p[2] + ('...' if p[5] and not p[2].endswith('...') else ''), b)
                    if t is None or not usable(b, t): okk = False; break
                    args += t
                if not okk: continue
                explicit = []
                ptxt = ' '.join(p[2] for p in f['params'])
                for t in tp:
                    if t[1] and re.search(r'(?<!::)\b%s\b' % t[1], ptxt) and not re.search(r'typename [^,]*\b%s\b' % t[1], ptxt): break
                    if not t[1]: break
                    explicit.append(', '.join(b[t[1]]) if isinstance(b[t[1]], list) else b[t[1]])
                if not all(True for _ in explicit): continue
                nm = f['q']
                call = '::%s%s(%s)' % (nm, '<%s>' % ', '.join(explicit) if explicit else '', ', '.join('arch::val<%s>()' % a for a in args))
                add('f', f['q'], call)
    # classes
    clsargs = {}
    for q, d in rec.items():
        if any(t[2] and t[1] not in PACKS for t in d['tp']): continue
        if d.get('access', 3) in (1, 2) : continue
        for ch in (0, 1):
            if ch and not any(t[1] == 'Traits' for t in d['tp']): continue
            for env in ENVS:
                need = []
                for t in d['tp']:
                    if len(t) > 5 and t[5] or (len(t) > 4 and t[4] and t[0] != 'v'): break
                    need.append(t)
                b = bind(need, env, ch)
                if b is None: continue
                a = ', '.join(', '.join(b[t[1]]) if isinstance(b.get(t[1]), list) else b.get(t[1], '0') for t in need if t[1])
                if not a: continue
                c = '::%s<%s >' % (q, a)
                clsargs.setdefault(q, {})[(env, ch)] = (c, b)
                add('c', q, c)
    # member templates, and constructors
    for f in U.fns:
        if f.get('inst') or f.get('deleted') or not f.get('clsq') or f.get('access') in (1, 2): continue
        cq = f['clsq']
        if cq.startswith('sprout') and not isd(cq) and f['kind'] in ('method', 'ctor'):
            tp = f.get('tp') or []
            bases = clsargs.get(cq)
            if bases is None:
                r0 = U.recq.get(cq)
                if not r0 or r0[0].get('tp') or r0[0].get('spec') or '<' in cq: continue
                bases = {(e, 0): ('::' + cq, {}) for e in ENVS}
                if not tp: continue
            for (env, ch), (c, cb) in bases.items():
                # the function's own parameters; dumped tp includes only its own
                b2 = bind([t for t in tp if t[1] not in cb], env, ch)
                if b2 is None: continue
                b = dict(cb); b.update(b2)
                cn = cq.split('::')[-1]
                args = []; okk = True
                for p in f['params']:
                    ty = p[2]
                    mt = U.recq.get(cq, [{}])[0].get('types', {})
                    t = subst(ty + ('...' if p[5] and not ty.endswith('...') else ''), b)
                    if t is None: okk = False; break
                    args += t
                if not okk: continue
                al = ', '.join('arch::val<%s>()' % a for a in args)
                if f['kind'] == 'ctor':
                    add('m', cq, c + ' | ' + 'K(%s)' % al)
                else:
                    obj = 'arch::val<K%s&>()' % (' const' if f.get('const') else '')
                    if f.get('static'): add('m', cq, c + ' | K::%s(%s)' % (f['name'], al))
                    else: add('m', cq, c + ' | %s.%s(%s)' % (obj, f['name'], al))
    print(len(W), collections.Counter(k for k, _, _ in W))
    return W


if __name__ == '__main__':
    import wit
    W = main()
    W = [(k, t) for k, q, t in W]
    seen = set(W)
    for l in open(tu.VERIF + '/zoo/extra.txt'):
        w = tuple(l.rstrip('\n').split(' ', 1))
        if len(w) == 2 and w not in seen: seen.add(w); W.append(w)
    failed = []
    for std in ('c++17', 'c++11', 'c++14', 'c++17'):
        while True:
            res = wit.typecheck(W, std=std)
            print('type-check', std, len(W), sum(map(bool, res)), 'loose', len(wit.typecheck.loose), wit.typecheck.loose[:3], flush=True)
            if not any(res): break
            failed += [(k, t, std, r) for (k, t), r in zip(W, res) if r]
            W = [w for w, r in zip(W, res) if not r]
    with open(tu.VERIF + '/tables/witness.txt', 'w') as fh:
        for k, t in W: fh.write('%s %s\n' % (k, t))
    with open(tu.BUILD + '/wit_failed.txt', 'w') as fh:
        for k, t, std, r in failed: fh.write('%s %s\n\t%s %s\n' % (k, t, std, '\n\t'.join(r[:2])))
