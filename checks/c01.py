"""C01 constexpr closure."""
import os, re, sys, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import tu, check
from ir import nodes, sites, arity_ok, has_pack, loc, sig, walk
from tu import VERIF, AnalysisBroken

UNITS = ('gcc17', 'gcc14', 'gcc11', 'portable17', 'portable14', 'portable11', 'pointer17', 'pointer11')

# signature mentions a run-time-only facility: formatted I/O, allocating strings, owning smart pointers, locale
RUNTIME_SIG = re.compile(r'typename basic_string<type-parameter|basic_(i|o|io)stream|basic_ios\b|ios_base|std::(__cxx11::)?basic_string<|std::(__cxx11::)?string\b|shared_ptr|unique_ptr|auto_ptr|std::bitset|std::locale|detail::io::|streambuf|sprout::logic::indeterminate_name|default_indeterminate_name')
# what g++ folds although the declaration is not marked: its built-in functions under their library names
GCC_FOLDED = re.compile(r'^(std::|__gnu_cxx::)?(__builtin_\w+|(a?(cos|sin|tan)h?|atan2|exp2?|expm1|log(10|2|1p|b)?|sqrt|cbrt|hypot|pow|fabs|abs|fmod|remainder|ceil|floor|trunc|round|[ln]?lround|[ln]?lrint|rint|nearbyint|llround|llrint|lround|lrint|fma|fmin|fmax|fdim|copysign|nextafter|nexttoward|ldexp|scalbn|scalbln|frexp|modf|remquo|ilogb|logb|erfc?|lgamma|tgamma|signbit|isnan|isinf|isfinite|isnormal|fpclassify|isgreater|isgreaterequal|isless|islessequal|islessgreater|isunordered|nan|strlen|labs|llabs)[fl]?)$')

# Reviewed exceptions to "everything is constexpr" (C++17 mode), each by qualified name.
NONCONSTEXPR_OK = {
    'sprout::detail::assertion_failed_msg': 'writes to cerr and aborts: only reached when an assertion fails',
    'sprout::detail::assertion_failed': 'writes to cerr and aborts: only reached when an assertion fails',
    'sprout::internal_begin': 'run-time access to the wrapped container, declared SPROUT_NON_CONSTEXPR',
    'sprout::internal_end': 'as internal_begin',
    'sprout::sub_container_traits<sprout::sub_array<type-parameter-0-0>>::call': 'as internal_begin',
    'sprout::sub_container_traits<sprout::container_holder<type-parameter-0-0>>::call': 'as internal_begin',
    'sprout::bad_optional_access::bad_optional_access': 'std::logic_error is not literal',
    'sprout::bad_rational::bad_rational': 'std::domain_error is not literal',
    'sprout::hash_detail::hash_value_pointer_1': 'hash of an address: a run-time value',
    'sprout::hash_detail::hash_value_pointer': 'hash of an address: a run-time value (reinterpret_cast)',
    'sprout::hash<type-parameter-0-0 *>::operator()': 'hash of an address: a run-time value',
    'sprout::random::detail::ptr_helper::ref': 'run-time (mutable engine) mode',
    'sprout::random::detail::ptr_helper<type-parameter-0-0 &>::ref': 'run-time (mutable engine) mode',
    'sprout::random::detail::ptr_helper<type-parameter-0-0 *>::ref': 'run-time (mutable engine) mode',
    'sprout::random::detail::uniform_int_float::base': 'run-time (mutable engine) mode',
    'sprout::detail::string_to_int_dynamic': 'calls strtol',
    'sprout::detail::string_to_float_dynamic': 'calls strtod',
    'sprout::detail::current_function_helper': 'never called',
    'sprout::dyn_cast': 'dynamic_cast',
    'sprout::reinter_cast': 'reinterpret_cast',
    'sprout::get_pointer': 'run-time pointers',
    'sprout::workaround::recursive_function_template_instantiation_exeeded::recursive_function_template_instantiation_exeeded': 'exception type',
    'sprout::recursive_function_template_instantiation_exeeded::recursive_function_template_instantiation_exeeded': 'exception type',
    'sprout::static_warning<true>::warn': 'compile-time diagnostics only',
    'sprout::static_warning<false>::warn': 'compile-time diagnostics only',
    'sprout::detail::variant_output_visitor::variant_output_visitor<OStream>': 'stream output',
    'sprout::bitset::bitset<N>': None,   # resolved below: only the overloads taking std::basic_string
}
NONCONSTEXPR_OK_RX = [
    (re.compile(r'^sprout::mem_fn_adaptor<'), 'calls through a pointer to non-const member, declared SPROUT_NON_CONSTEXPR'),
    (re.compile(r'^sprout::(detail::)?(res_)?binder(_impl)?<'), 'calls of a mutable bound functor'),
]
# destructors that make a class non-literal on purpose
DTOR_OK = re.compile(r'^sprout::(detail::io::|static_warning|workaround)')
INV = os.path.join(VERIF, 'tables', 'constexpr_inventory.json')


def runtime_sig(f):
    s = ' '.join([f['cret'], f['q'], f.get('clsq', '')] + [p[3] for p in f['params']])
    return bool(RUNTIME_SIG.search(s))


def excepted(f):
    if runtime_sig(f):
        return 'run-time facility in the signature'
    if NONCONSTEXPR_OK.get(f['q']):
        return NONCONSTEXPR_OK[f['q']]
    if f['q'] == 'sprout::bitset::bitset<N>':
        return None
    for rx, why in NONCONSTEXPR_OK_RX:
        if rx.search(f['q']):
            return why
    return None


def isdetail(f):
    q = f['q']
    return bool(re.search(r'(^|::)(\w*_?detail|detail\w*|aux_?|impl|\w+_impl\w*|ns_\w+|workaround)(::|$)', q)) or f['access'] in (1, 2)


def key(f):
    return sig(f)


def inventory(units):
    """public functions that can be evaluated at compile time, per language mode"""
    inv = {}
    for n in ('gcc11', 'gcc17'):
        c, t = {}, {}
        for f in units[n].fns:
            if 'body' not in f or isdetail(f) or f['implicit'] or f['deleted']:
                continue
            k = key(f)
            t[k] = t.get(k, 0) + 1
            c[k] = c.get(k, 0) + f['constexpr']
        inv[n] = {k: t[k] - c[k] for k in sorted(t) if c[k]}     # signature -> overloads that are not constexpr
    return inv


def callee_ok(U, uname, d):
    """True/False/None(unknown) - may a constant expression call d"""
    if d is None:
        return None
    if d['t'] not in ('fn', 'xfn'):
        return None      # a class, a field of function type, a using declaration ...
    if d['constexpr']:
        return True
    if d.get('implicit') or d.get('defaulted'):
        return None      # decided by the members, which R3/R4 look at
    if d['builtin']:
        return True
    if GCC_FOLDED.match(d['q']):
        return True if uname.startswith('gcc') else False
    if d['q'] in ('std::forward', 'std::move', 'std::declval', 'std::addressof', 'std::begin', 'std::end'):
        return True
    if d['t'] == 'fn' and d.get('virtual'):
        return None
    return False


# constexpr functions that reach one of the exceptions above only on a branch that a constant expression does not take
R1_OK = {
    ('sprout::detail::assertion_check_msg', 'sprout::detail::assertion_failed_msg'): 'the failing assertion',
    ('sprout::detail::assertion_check', 'sprout::detail::assertion_failed'): 'the failing assertion',
    ('sprout::detail::str_to_int', 'strtoimax'): 'the branch for a non-null end pointer is run-time only',
    ('sprout::detail::str_to_int', 'strtoumax'): 'the branch for a non-null end pointer is run-time only',
    ('sprout::string_to_int', 'sprout::detail::string_to_int_dynamic'): 'the branch for a non-null index pointer is run-time only',
    ('sprout::string_to_float', 'sprout::detail::string_to_float_dynamic'): 'the branch for a non-null index pointer is run-time only',
    ('sprout::iterator_detail::iterator_distance_dispatch', 'sprout::iterator_detail::cxx14_distance'): 'C++11: input iterators without ADL hooks cannot move in a constant expression',
    ('sprout::iterator_detail::next_impl', 'sprout::iterator_detail::cxx14_next'): 'as distance',
    ('sprout::iterator_detail::prev_impl', 'sprout::iterator_detail::cxx14_prev'): 'as distance',
    ('sprout::hash_detail::hash_value_impl', 'sprout::hash_detail::hash_value_pointer'): 'hash of an address',
}


def nothrow_body(f):
    def prune(x):
        if not isinstance(x, list):
            return x
        if x and x[0] == 'throw':
            return ['throw', None, 0]
        return [prune(y) for y in x]
    g = dict(f)
    if 'body' in f: g['body'] = prune(f['body'])
    if 'inits' in f: g['inits'] = prune(f['inits'])
    return g


def effects(f):
    """inherently non-constant operations in f's own body: (what, line)"""
    for n in nodes(f):
        k = n[0]
        if k == 'cast' and n[1] in ('reinterpret_cast', 'dynamic_cast'):
            yield n[1], None
        elif k == 'cast' and n[1] in ('c', 'func') and n[-1] in ('BitCast', 'IntegralToPointer', 'PointerToIntegral') and 'void' not in str(n[3]):
            yield 'a cast between unrelated pointers', None
        elif k in ('new', 'delete'):
            yield k, None
        elif k == '?' and n[1] in ('CXXTypeidExpr', 'GCCAsmStmt', 'GotoStmt', 'LabelStmt', 'MSAsmStmt', 'VAArgExpr', 'IndirectGotoStmt'):
            yield n[1], None
        elif k == 'decl':
            for v in n[1]:
                if v[5]:
                    yield 'the static local variable "%s"' % v[1], n[2]
                elif v[4] is None and not str(v[3]).startswith(('type-parameter', 'typename')) and re.match(r'^(const )?(unsigned |signed )?(char|short|int|long|float|double|bool)( long| int| double)*$', str(v[3])):
                    yield 'the uninitialised variable "%s"' % v[1], n[2]


def run(R, tier):
    R.rule('R1: over the resolved syntax trees of all headers (C++11 and C++17, with and without the g++ builtins), no function declared constexpr contains an operation barred from constant evaluation (call whose every viable candidate is non-constexpr, read of a mutable variable, reinterpret/dynamic cast, new/delete, asm, goto, static or uninitialised local).')
    R.rule('R2: in C++17 mode every function body is constexpr unless its signature names a run-time facility or it is a reviewed exception. R3: every public function of the reviewed inventory that still exists is constexpr in each mode it was. R4: no class gets a non-trivial destructor or a non-constexpr namespace-scope or static constant.')
    R.assume += ['g++ folds its own math and bit builtins in constant expressions (as sprout/config/compiler/gcc.hpp states)',
                 'calls that depend on a template parameter are judged by the candidates visible at the definition; members of user types are the user\'s']
    units = tu.header_units(UNITS)
    if os.environ.get('SPROUT_WRITE_TABLES'):
        json.dump(inventory(units), open(INV, 'w'), indent=0)
    inv = json.load(open(INV))
    # ---- R1
    for un in UNITS:
        U = units[un]
        for f in U.fns:
            if not f['constexpr'] or 'body' not in f:
                continue
            R.count('constexpr bodies')
            f = nothrow_body(f)
            badsite = False
            for s in sites(f):
                if not s.cands:
                    continue
                if s.adl:
                    continue
                R.count('call sites')
                pk = has_pack(s.args)
                verdicts = []
                for c in s.cands:
                    d = U.byid.get(c)
                    if d is None:
                        verdicts.append(None); continue
                    if len(s.cands) > 1 and d['t'] in ('fn', 'xfn') and not arity_ok(d, len(s.args), pk):
                        continue
                    verdicts.append(callee_ok(U, un, d))
                if verdicts and all(v is False for v in verdicts):
                    d = U.byid[s.cands[0]]
                    if un.endswith('11') and d.get('kind') == 'method' and not d.get('const') and not d.get('static'):
                        continue    # C++11 constant expressions have no mutable objects: this call cannot be in one
                    if (f['q'], d['q']) in R1_OK:
                        continue
                    R.bad('R1 %s -> %s' % (sig(f), d['q']), '%s: [R1] %s is constexpr but calls %s, which is not (%s)' % (loc(f, s.line), f['q'], d['q'], un))
                    badsite = True
            for n in nodes(f):
                if n[0] == 'var':
                    d = U.byid.get(n[1])
                    if d and d['t'] in ('var', 'xdecl') and not d.get('constexpr') and 'cty' in d:
                        ty = d['cty']
                        ok = ty.startswith('const ') and not re.search(r'\b(float|double)\b', ty)
                        ok = ok or 'type-parameter' in ty or ty.endswith('&') or ty.endswith('const') or ty.endswith('*const') or '<dependent' in ty
                        ok = ok or d.get('tmpl') and ty.startswith('const ')
                        if not ok:
                            R.bad('R1v %s -> %s' % (sig(f), d['q']), '%s: [R1] %s is constexpr but reads the mutable variable %s' % (loc(f), f['q'], d['q']))
                            badsite = True
            for what, ln in effects(f):
                R.bad('R1e %s %s' % (sig(f), what), '%s: [R1] %s is constexpr but contains %s (%s)' % (loc(f, ln), f['q'], what, un))
                badsite = True
            if not badsite:
                R.ok()
    # ---- R2
    for un in ('gcc17', 'portable17'):
        for f in units[un].fns:
            if 'body' not in f or f['constexpr'] or f['deleted'] or f['kind'] == 'dtor':
                continue
            R.count('non-constexpr bodies')
            if excepted(f) or un == 'portable17' and 'initializer_list' in sig(f):
                R.ok()       # (clang's branch of sprout/config/stdlib does not count on a constexpr initializer_list)
            else:
                R.bad('R2 ' + sig(f), '%s: [R2] %s is not usable in constant expressions and nothing in its signature bars it' % (loc(f), sig(f)))
    # ---- R3
    for un in ('gcc11', 'gcc17'):
        cur = {}
        for f in units[un].fns:
            cur.setdefault(key(f), []).append(f)
        for k, nn in inv[un].items():
            fs = [f for f in cur.get(k, ()) if 'body' in f and not f['deleted']]
            R.count('inventory entries')
            if not fs:
                R.count('inventory entries gone'); continue
            if sum(not f['constexpr'] for f in fs) <= nn:
                R.ok()
            else:
                f = [f for f in fs if not f['constexpr']][0]
                R.bad('R3 %s %s' % (un, k), '%s: [R3] %s is no longer usable in constant expressions in %s' % (loc(f), k, 'C++11' if un == 'gcc11' else 'C++17'))
    if R.counts['inventory entries gone'] if 'inventory entries gone' in R.counts else 0:
        if R.counts['inventory entries gone'] > len(inv['gcc11']) * 0.3:
            raise AnalysisBroken('most of the constexpr inventory has vanished')
    # ---- R4
    U = units['gcc17']
    for f in U.fns:
        if f['kind'] == 'dtor' and not f['implicit'] and not f['defaulted'] and not DTOR_OK.search(f['q']):
            ex = runtime_sig(f) or 'exceptions' in f['file']
            (R.ok() if ex else R.bad('R4 ' + f['q'], '%s: [R4] user-provided destructor %s makes the class unusable in constant expressions' % (loc(f), f['q'])))
    for un in ('gcc17', 'gcc11'):
        for v in units[un].vars:
            R.count('variables')
            ty = v['cty']
            if v['constexpr'] or v.get('smember') and not v.get('isdef') and ty.startswith('const '):
                R.ok(); continue
            if v.get('smember') and v.get('isdef') and 'init' not in v:
                R.ok(); continue   # out-of-class definition of a static member
            if v['q'] in ('sprout::logic::indeterminate_name::id', 'sprout::enabler'):
                R.ok(); continue   # std::locale::id facet identity; SFINAE placeholder whose value is never read
            R.bad('R4v ' + v['q'], '%s: [R4] the constant %s is not constexpr' % (loc(v), v['q']))
    R.floor('constexpr bodies', 20000)
    R.floor('call sites', 30000)
    R.floor('inventory entries', 5000)


sys.exit(check.main('C01', run))
