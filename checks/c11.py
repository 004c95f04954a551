"""C11: type-level functions compute what their names say.  Witnesses are static_asserts on types and metafunction results only;
they are type-checked by both compilers in two language modes, nothing is evaluated but template arguments."""
import os, sys, re, math, subprocess, tempfile, shutil, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import tu
from check import main
from concurrent.futures import ThreadPoolExecutor

FUND = ['void', 'bool', 'char', 'signed char', 'unsigned char', 'wchar_t', 'char16_t', 'char32_t', 'short', 'unsigned short', 'int', 'unsigned int', 'long', 'unsigned long',
        'long long', 'unsigned long long', 'float', 'double', 'long double', 'std::nullptr_t']
ARITH = FUND[1:-1]
CLASSES = ['empty', 'pod', 'padded', 'nontriv', 'nothrow_all', 'nocopy', 'moveonly', 'copyonly', 'noassign', 'nodefault', 'expl', 'conv', 'nothrow_conv', 'throwing_dtor', 'privdtor', 'deleted_dtor',
           'abstr', 'poly', 'vdtor', 'finl', 'base', 'derived', 'privder', 'vder', 'diamond', 'bit', 'nonstd', 'withref', 'swp', 'swpthrow', 'noswp', 'callable', 'lit', 'nonlit', 'tmpl<int>', 'un', 'unt', 'num']
Z = ['zt::' + c for c in CLASSES]
ENUMS = ['zt::en', 'zt::ens', 'zt::ec', 'zt::ecu']
COMPOUND = ['int*', 'int const*', 'int* const', 'int const volatile*', 'void*', 'void const*', 'int**', 'zt::pod*', 'zt::derived*', 'zt::abstr*', 'void(*)()', 'int(*)(int, ...)', 'int(*)[3]',
            'int&', 'int const&', 'int volatile&', 'int&&', 'int const&&', 'zt::pod&', 'zt::pod const&', 'zt::pod&&', 'zt::abstr&', 'zt::nocopy&', 'zt::moveonly&&', 'int(&)[3]', 'int const(&)[3]', 'void(&)()',
            'int[3]', 'int const[3]', 'int[]', 'int const[]', 'int[2][3]', 'int[][3]', 'int* [4]', 'zt::pod[2]', 'zt::nontriv[2]', 'zt::swp[2]', 'char[5]', 'char const[5]', 'char16_t[2]', 'wchar_t const[4]', 'signed char[3]',
            'void()', 'int(int)', 'int(int, ...)', 'void() const', 'void() volatile', 'void() const&', 'void() &&', 'int (zt::pod::*)', 'int const zt::pod::*', 'void (zt::abstr::*)()', 'int (zt::nonstd::*)() const',
            'int (zt::pod::* const)', 'void (zt::abstr::*)() const volatile', 'int* volatile', 'int (zt::pod::* volatile)']
ALL = FUND + Z + ENUMS + COMPOUND + [c + ' ' + q for c in ('int', 'double', 'void', 'bool', 'zt::pod', 'zt::nontriv', 'zt::en', 'zt::un', 'zt::finl', 'std::nullptr_t') for q in ('const', 'volatile', 'const volatile')]
OBJ = [t for t in ALL if not t.startswith('void') or '*' in t]

UNARY = 'is_void is_null_pointer is_integral is_floating_point is_array is_pointer is_lvalue_reference is_rvalue_reference is_member_object_pointer is_member_function_pointer is_enum is_union is_class is_function is_reference is_arithmetic is_fundamental is_object is_scalar is_compound is_member_pointer is_const is_volatile is_trivial is_trivially_copyable is_standard_layout is_pod is_empty is_polymorphic is_abstract is_signed is_unsigned is_default_constructible is_copy_constructible is_move_constructible is_copy_assignable is_move_assignable is_destructible is_trivially_default_constructible is_trivially_copy_constructible is_trivially_move_constructible is_trivially_copy_assignable is_trivially_move_assignable is_trivially_destructible is_nothrow_default_constructible is_nothrow_copy_constructible is_nothrow_move_constructible is_nothrow_copy_assignable is_nothrow_move_assignable is_nothrow_destructible has_virtual_destructor rank extent is_literal_type'.split()
UNARY14 = ['is_final']
UNARY17 = ['is_aggregate', 'is_swappable', 'is_nothrow_swappable', 'has_unique_object_representations']
TRANS = 'remove_const remove_volatile remove_cv add_const add_volatile add_cv remove_reference add_lvalue_reference add_rvalue_reference remove_pointer add_pointer remove_extent remove_all_extents decay'.split()
BINARY = 'is_same is_base_of is_convertible is_assignable is_constructible is_trivially_assignable is_trivially_constructible is_nothrow_assignable is_nothrow_constructible'.split()
BINARY17 = 'is_swappable_with is_nothrow_swappable_with'.split()
PAIRT = ['void', 'int', 'int const', 'int&', 'int const&', 'int&&', 'long', 'unsigned char', 'double', 'bool', 'int*', 'int const*', 'void*', 'std::nullptr_t', 'int[3]', 'int(&)[3]', 'void()', 'void(*)()',
         'zt::empty', 'zt::base', 'zt::derived', 'zt::base&', 'zt::derived&', 'zt::base const&', 'zt::derived&&', 'zt::base*', 'zt::derived*', 'zt::privder', 'zt::vder', 'zt::diamond', 'zt::expl', 'zt::conv', 'zt::nothrow_conv', 'zt::nodefault', 'zt::moveonly', 'zt::moveonly&', 'zt::nocopy&',
         'zt::noassign&', 'zt::en', 'zt::ec', 'zt::swp&', 'zt::swpthrow&', 'zt::hs1&', 'zt::hs2&', 'zt::hs3&', 'zt::abstr', 'zt::finl', 'zt::un', 'zt::throwing_dtor']
HASBIN = 'plus minus multiplies divides modulus plus_assign minus_assign multiplies_assign divides_assign modulus_assign bit_and bit_or bit_xor shift_left shift_right bit_and_assign bit_or_assign bit_xor_assign shift_left_assign shift_right_assign left_shift right_shift left_shift_assign right_shift_assign equal_to not_equal_to less greater less_equal greater_equal logical_and logical_or assign comma subscript member member_pointer'.split()
HASUN = 'negate unary_minus unary_plus posite bit_not complement logical_not dereference address_of pre_increment pre_decrement post_increment post_decrement'.split()
OPT = ['int', 'int&', 'int const&', 'double', 'double&', 'bool&', 'int*', 'int*&', 'int const*', 'zt::num', 'zt::num&', 'zt::num const&', 'zt::empty', 'zt::empty&', 'zt::onlyeq', 'zt::asy', 'zt::asy&', 'zt::onlylt', 'zt::onlypre&', 'zt::onlypost&', 'zt::nonconstop&', 'zt::nonconstop', 'zt::delop',
       'zt::ec', 'zt::en', 'zt::conv', 'zt::expl', 'zt::amp', 'std::nullptr_t', 'void(*)()', 'int (zt::pod::*)', 'zt::pod', 'zt::pod*', 'zt::derived*', 'int (zt::base::*)', 'int[3]', 'std::string&', 'std::string', 'std::size_t']
ADD_TMPL = 'sprout::'

MATH1 = 'acos asin atan cos sin tan acosh asinh atanh cosh sinh tanh exp exp2 expm1 log log10 log1p log2 logb sqrt cbrt erf erfc tgamma lgamma ceil floor trunc round ilogb lround llround fabs'.split()
MATH1B = 'isfinite isinf isnan isnormal signbit fpclassify'.split()
MATH2 = 'atan2 pow hypot fmod remainder copysign fdim fmax fmin'.split()
MATH2B = 'isgreater isgreaterequal isless islessequal islessgreater isunordered'.split()
MATHX = [('fma', 3), ('scalbn', 'i'), ('scalbln', 'l'), ('ldexp', 'i')]
MARITH = ['bool', 'char', 'short', 'unsigned int', 'long', 'unsigned long long', 'float', 'double', 'long double']


def lst(xs):
    return 'sprout::types::type_tuple<%s>' % ', '.join(xs)


def idx(xs):
    return 'sprout::index_tuple<%s>' % ', '.join(map(str, xs))


def seq(t, xs):
    return 'sprout::integer_sequence<%s>' % ', '.join([t] + [str(x) for x in xs])


def b(x):
    return 'true' if x else 'false'


def exact_digits(bits, base):
    return len_in(2 ** bits - 1, base)


def len_in(v, base):
    n = 0
    while v: v //= base; n += 1
    return n


HAVE_TLIST = False


def generate(std):
    """yields (key, line, includes)"""
    W = []

    def w(key, expr, inc):
        W.append((key, expr, inc))

    def same(key, a, c, inc):
        w(key, 'std::is_same<%s, %s>::value' % (a, c), inc)
    tr = lambda n: 'sprout/type_traits/%s.hpp' % n
    v17 = std >= 17
    # ---- F1
    for n in UNARY + (UNARY14 if std >= 14 else []) + (UNARY17 if v17 else []):
        for t in ALL:
            if n in ('is_aggregate', 'is_final', 'has_unique_object_representations') and ('[]' in t): continue
            w('%s<%s>' % (n, t), 'sprout::%s<%s>::value == std::%s<%s>::value' % (n, t, n, t), tr(n))
        if std >= 14:
            for t in ('int', 'zt::pod', 'zt::nontriv&', 'double const', 'int[3]', 'zt::abstr'):
                w('%s_v<%s>' % (n, t), 'sprout::%s_v<%s> == std::%s<%s>::value' % (n, t, n, t), tr(n))
    for t in ALL:
        if t.startswith('void') and '*' not in t and '&' not in t or t.endswith('[]') or 'abstr' in t and False: continue
        if re.match(r'int\(|void\(\)', t) or '(&)()' in t: continue
        w('alignment_of<%s>' % t, 'sprout::alignment_of<%s>::value == std::alignment_of<%s>::value' % (t, t), tr('alignment_of'))
    for t in ('int[2][3]', 'int[4]', 'int[][3]', 'int'):
        for k in range(3):
            w('extent<%s,%d>' % (t, k), 'sprout::extent<%s, %d>::value == std::extent<%s, %d>::value' % (t, k, t, k), tr('extent'))
    # ---- F2
    for n in TRANS:
        for t in ALL:
            same('%s<%s>' % (n, t), 'typename sprout::%s<%s>::type' % (n, t) if False else 'sprout::%s<%s>::type' % (n, t), 'std::%s<%s>::type' % (n, t), tr(n))
            if t in ('int const volatile', 'zt::pod const&', 'int* volatile', 'int[2][3]', 'void'):
                same('%s_t<%s>' % (n, t), 'sprout::%s_t<%s>' % (n, t), 'std::%s<%s>::type' % (n, t), tr(n))
    for n in ('make_signed', 'make_unsigned'):
        for t in [x for x in FUND if x not in ('void', 'bool', 'float', 'double', 'long double', 'std::nullptr_t')] + ENUMS + ['int const', 'unsigned char volatile', 'char const volatile']:
            same('%s<%s>' % (n, t), 'sprout::%s<%s>::type' % (n, t), 'std::%s<%s>::type' % (n, t), tr(n))
    for t in ENUMS:
        same('underlying_type<%s>' % t, 'sprout::underlying_type<%s>::type' % t, 'std::underlying_type<%s>::type' % t, tr('underlying_type'))
    for t in ALL:
        w('remove_cvref<%s>' % t, 'std::is_same<sprout::remove_cvref<%s>::type, std::remove_cv<std::remove_reference<%s>::type>::type>::value' % (t, t), tr('remove_cvref'))
        for n, o in (('remove_shallow_const', 'rs_c'), ('remove_shallow_volatile', 'rs_v'), ('remove_shallow_cv', 'rs_cv'), ('remove_shallow_cvref', 'rs_cvref')):
            same('%s<%s>' % (n, t), 'sprout::%s<%s>::type' % (n, t), 'zt::%s<%s>::type' % (o, t), tr(n))
    for c in ('true', 'false'):
        same('conditional<%s>' % c, 'sprout::conditional<%s, int, zt::pod>::type' % c, 'std::conditional<%s, int, zt::pod>::type' % c, tr('conditional'))
        w('enable_if<%s>' % c, 'zt::same_result<sprout::enable_if<%s, int>, std::enable_if<%s, int> >::value' % (c, c), tr('enable_if'))
        w('enable_if<%s>/void' % c, 'zt::same_result<sprout::enable_if<%s>, std::enable_if<%s> >::value' % (c, c), tr('enable_if'))
        w('enabler_if<%s>' % c, '!std::is_same<zt::typeof_<sprout::enabler_if<%s> >::type, zt::none>::value == %s' % (c, c), tr('enabler_if'))
        w('disabler_if<%s>' % c, '!std::is_same<zt::typeof_<sprout::disabler_if<%s> >::type, zt::none>::value != %s' % (c, c), tr('enabler_if'))
        w('negation<%s>' % c, 'sprout::negation<std::integral_constant<bool, %s> >::value != %s' % (c, c), tr('negation'))
    for k in range(5):
        for bs in itertools.product((False, True), repeat=k):
            args = ', '.join('std::integral_constant<bool, %s>' % b(x) for x in bs)
            w('conjunction<%s>' % (bs,), 'sprout::conjunction<%s>::value == %s' % (args, b(all(bs))), tr('conjunction'))
            w('disjunction<%s>' % (bs,), 'sprout::disjunction<%s>::value == %s' % (args, b(any(bs))), tr('disjunction'))
            for nm, val in (('all_of', all(bs)), ('any_of', any(bs)), ('none_of', not any(bs)), ('one_of', sum(bs) == 1)):
                w('tpp::%s<%s>' % (nm, bs), 'sprout::tpp::%s<%s>::value == %s' % (nm, args, b(val)), 'sprout/tpp/algorithm/%s.hpp' % nm)
                w('tpp::%s_c<%s>' % (nm, bs), 'sprout::tpp::%s_c<%s>::value == %s' % (nm, ', '.join(map(b, bs)), b(val)), 'sprout/tpp/algorithm/%s.hpp' % nm)
    for p in itertools.chain.from_iterable(itertools.permutations((-3, 0, 2, 7, 2)[:k]) for k in range(1, 5)):
        for nm, val in (('max_element', max(p)), ('min_element', min(p))):
            w('tpp::%s_c<%s>' % (nm, p), 'sprout::tpp::%s_c<int, %s>::value == %d' % (nm, ', '.join(map(str, p)), val), 'sprout/tpp/algorithm/%s.hpp' % nm)
    for a, c in itertools.product(('int', 'long', 'double', 'int*', 'void*', 'zt::base*', 'zt::derived*', 'int const&', 'char', 'std::nullptr_t', 'float', 'unsigned', 'zt::pod'), repeat=2):
        w('common_type<%s,%s>' % (a, c), 'zt::same_result<sprout::common_type<%s, %s>, std::common_type<%s, %s> >::value' % (a, c, a, c), tr('common_type'))
    same('common_type<short,int,double>', 'sprout::common_type<short, int, double>::type', 'double', tr('common_type'))
    same('identity', 'sprout::identity<int const&>::type', 'int const&', tr('identity'))
    same('void_t', 'sprout::void_t<int, zt::pod>', 'void', tr('voider'))
    # ---- F3
    for n in BINARY + (BINARY17 if v17 else []):
        for x, y in itertools.product(PAIRT, PAIRT):
            if n == 'is_base_of' and 0: continue
            w('%s<%s, %s>' % (n, x, y), 'sprout::%s<%s, %s>::value == std::%s<%s, %s>::value' % (n, x, y, n, x, y), tr(n))
    CALLS = [('void()', ''), ('int(int)', 'int'), ('int(int)', 'double'), ('int(int)', 'zt::pod'), ('int(*)(int)', 'int'), ('zt::callable', 'int'), ('zt::callable', 'double, int'), ('zt::callable', ''), ('zt::callable const', ''),
             ('zt::callable const', 'int'), ('zt::callable&', 'float, char'), ('int (zt::nonstd::*)() const', 'zt::nonstd const&'), ('int (zt::nonstd::*)() const', 'zt::nonstd*'), ('int (zt::nonstd::*)() const', 'zt::pod'), ('int zt::base::*', 'zt::derived&'),
             ('int zt::base::*', 'zt::derived*'), ('int zt::base::*', 'zt::base'), ('int zt::base::*', 'std::unique_ptr<zt::base>'), ('int', ''), ('int', 'int'), ('zt::empty', 'int')]
    for f, a in CALLS:
        fa = f + (', ' + a if a else '')
        if v17:
            for n in ('is_invocable', 'is_nothrow_invocable'):
                w('%s<%s>' % (n, fa), 'sprout::%s<%s>::value == std::%s<%s>::value' % (n, fa, n, fa), tr(n))
            for r in ('void', 'int', 'zt::pod', 'double', 'int*'):
                for n in ('is_invocable_r', 'is_nothrow_invocable_r'):
                    w('%s<%s, %s>' % (n, r, fa), 'sprout::%s<%s, %s>::value == std::%s<%s, %s>::value' % (n, r, fa, n, r, fa), tr(n))
            w('invoke_result<%s>' % fa, 'zt::same_result<sprout::invoke_result<%s>, std::invoke_result<%s> >::value' % (fa, fa), tr('invoke_result'))
    iv = 'sprout/functional/invoke.hpp'
    for k, (dcl, call, res) in enumerate((('zt::base* p', '&zt::base::b, p', 'int&'), ('zt::base const* p', '&zt::base::b, p', 'int const&'), ('zt::derived& p', '&zt::base::b, p', 'int&'), ('zt::nonstd const* p', '&zt::nonstd::geta, p', 'int'), ('zt::nonstd const& p', '&zt::nonstd::geta, p', 'int'),
                                         ('int (*p)(int)', 'p, 3', 'int'), ('zt::callable const& p', 'p, 3', 'decltype(p(3))'))):
        w('invoke(%s) with %s' % (call, dcl), 'DECL inline void use_invoke_%d(%s) { static_assert(std::is_same<decltype(sprout::invoke(%s)), %s>::value, ""); (void)sprout::invoke(%s); }' % (k, dcl, call, res, call), iv)
    # ---- F4
    inch = lambda n: tr('has_' + n)
    for n in HASUN:
        for t in OPT:
            if n == 'address_of' and t == 'zt::amp' and False: continue
            w('has_%s<%s>' % (n, t), 'sprout::has_%s<%s>::value == zt::d_%s<%s, zt::any_r>::value' % (n, t, n, t), inch(n))
            for r in ('bool', 'zt::num', 'void'):
                w('has_%s<%s, %s>' % (n, t, r), 'sprout::has_%s<%s, %s>::value == zt::d_%s<%s, %s>::value' % (n, t, r, n, t, r), inch(n))
    for n in HASBIN:
        for x in OPT:
            for y in (OPT if x in ('int&', 'zt::asy', 'zt::num&', 'zt::pod', 'zt::pod*', 'zt::derived*', 'double', 'zt::nonconstop&', 'std::string&') else [x, 'int', 'zt::num const&', 'std::nullptr_t', 'int (zt::base::*)']):
                if re.match(r'void ?\(', y): continue
                w('has_%s<%s, %s>' % (n, x, y), 'sprout::has_%s<%s, %s>::value == zt::d_%s<%s, %s, zt::any_r>::value' % (n, x, y, n, x, y), inch(n))
            for r in ('bool', 'int', 'zt::num'):
                w('has_%s<%s, %s, %s>' % (n, x, x, r), 'sprout::has_%s<%s, %s, %s>::value == zt::d_%s<%s, %s, %s>::value' % (n, x, x, r, n, x, x, r), inch(n))
            if n not in ('subscript', 'member', 'member_pointer'):
                w('has_%s<%s>' % (n, x), 'sprout::has_%s<%s>::value == zt::d_%s<%s, %s, zt::any_r>::value' % (n, x, n, x, x), inch(n))
    # ---- F5
    cvs = lambda t: [t, t + ' const', t + ' volatile', t + ' const volatile']
    for t0 in ARITH + ['zt::ens', 'zt::pod']:
        for t in cvs(t0):
            w('is_sint<%s>' % t, 'sprout::is_sint<%s>::value == (std::is_integral<%s>::value && std::is_signed<%s>::value)' % (t, t, t), tr('is_sint'))
            w('is_uint<%s>' % t, 'sprout::is_uint<%s>::value == (std::is_integral<%s>::value && std::is_unsigned<%s>::value)' % (t, t, t), tr('is_uint'))
            w('is_char_type<%s>' % t, 'sprout::is_char_type<%s>::value == %s' % (t, b(t0 in ('char', 'wchar_t', 'char16_t', 'char32_t'))), tr('is_char_type'))
            w('is_c_str<%s[3]>' % t, 'sprout::is_c_str<%s[3]>::value == %s' % (t, b(t0 in ('char', 'wchar_t', 'char16_t', 'char32_t'))), tr('is_c_str')) if 'volatile' not in t and t0 != 'zt::pod' else None
    for t in ('char', 'char*', 'char const*', 'char&', 'int'):
        w('is_c_str<%s>' % t, '!sprout::is_c_str<%s>::value' % t, tr('is_c_str'))
    for t in ('int', 'zt::pod', 'int*', 'int const', 'double volatile'):
        for u in cvs('int') + cvs('zt::pod') + ['int const*', 'int const&']:
            for n, o in (('copy_cv', 'cp_cv'), ('copy_const', 'cp_c'), ('copy_volatile', 'cp_v')):
                same('%s<%s, %s>' % (n, t, u), 'sprout::%s<%s, %s>::type' % (n, t, u), 'zt::%s<%s, %s>::type' % (o, t, u), tr(n))
    for t, r in (('int', 'int const&&'), ('int&', 'int const&'), ('int const&', 'int const&'), ('int&&', 'int const&&'), ('zt::pod const', 'zt::pod const&&')):
        same('const_reference<%s>' % t, 'sprout::const_reference<%s>::type' % t, r, tr('const_reference'))
    for t, r in (('int&', 'int&'), ('int const&', 'int const&'), ('zt::pod const', 'zt::pod const&')):
        same('lvalue_reference<%s>' % t, 'sprout::lvalue_reference<%s>::type' % t, r, tr('lvalue_reference'))
    for t, h in (('zt::tmpl<int>', True), ('std::true_type', True), ('zt::pod', False), ('int', False), ('std::string', False), ('zt::tmpl<int>*', False)):
        w('has_type<%s>' % t, 'sprout::has_type<%s>::value == %s' % (t, b(h)), tr('has_type'))
        w('has_value<%s>' % t, 'sprout::has_value<%s>::value == %s' % (t, b(h)), tr('has_value'))
    for f, t in itertools.product(('int', 'zt::expl', 'zt::conv', 'zt::base', 'zt::derived', 'zt::derived*', 'zt::base*', 'std::nullptr_t', 'int*', 'int const*', 'zt::pod'), repeat=2):
        if t != 'zt::abstr':
            w('is_convert_constructible<%s, %s>' % (t, f), 'sprout::is_convert_constructible<%s, %s>::value == std::is_convertible<%s, %s>::value' % (t, f, f, t), tr('is_convert_constructible'))
        up = 'std::is_pointer<%s>::value && (std::is_same<%s, std::nullptr_t>::value || (std::is_base_of<std::remove_pointer<%s>::type, std::remove_pointer<%s>::type>::value))' % (t, f, t, f)
        w('is_upcast<%s, %s>' % (f, t), 'sprout::is_upcast<%s, %s>::value == (%s)' % (f, t, up), tr('is_upcast'))
    for f, t, r in (('int*', 'int const*', 1), ('int const*', 'int*', 1), ('int*', 'long*', 0), ('int const&', 'int&', 1), ('int&', 'long&', 0), ('zt::pod*', 'void*', 0)):
        w('is_const_cast_convertible<%s,%s>' % (f, t), 'sprout::is_const_cast_convertible<%s, %s>::value == %s' % (f, t, b(r)), tr('is_const_cast_convertible'))
    for t, r in (('sprout::array<int, 3>', 1), ('sprout::array<int, 3> const&', 1), ('sprout::optional<int>', 1), ('int', 0), ('std::string', 0), ('zt::pod', 0), ('sprout::tuples::tuple<int>', 0)):
        if 'tuple' in t: continue
        w('is_within_namespace_sprout<%s>' % t, 'sprout::is_within_namespace_sprout<%s>::value == %s' % (t, b(r)), tr('is_within_namespace_sprout') + ' sprout/array.hpp sprout/optional.hpp')
    # ---- F6
    for x in ARITH:
        for q in ('', ' const', ' volatile'):
            same('float_promote<%s%s>' % (x, q), 'sprout::float_promote<%s%s>::type' % (x, q), 'zt::fp<%s%s>::type' % (x, q), tr('float_promote'))
            same('arithmetic_promote<%s%s>' % (x, q), 'sprout::arithmetic_promote<%s%s>::type' % (x, q), 'zt::ap<%s%s>::type' % (x, q), tr('arithmetic_promote'))
    for x, y in itertools.product(ARITH, repeat=2):
        same('float_promote<%s, %s>' % (x, y), 'sprout::float_promote<%s, %s>::type' % (x, y), 'zt::fp<%s, %s>::type' % (x, y), tr('float_promote'))
        same('arithmetic_promote<%s, %s>' % (x, y), 'sprout::arithmetic_promote<%s, %s>::type' % (x, y), 'zt::ap<%s, %s>::type' % (x, y), tr('arithmetic_promote'))
    for x, y, z in itertools.product(('char', 'int', 'unsigned long', 'float', 'double', 'long double'), repeat=3):
        same('float_promote<%s, %s, %s>' % (x, y, z), 'sprout::float_promote<%s, %s, %s>::type' % (x, y, z), 'zt::fp<%s, %s, %s>::type' % (x, y, z), tr('float_promote'))
        same('arithmetic_promote<%s, %s, %s>' % (x, y, z), 'sprout::arithmetic_promote<%s, %s, %s>::type' % (x, y, z), 'zt::ap<%s, %s, %s>::type' % (x, y, z), tr('arithmetic_promote'))
    C = 'sprout::complex<%s>'
    fl = ['float', 'double', 'long double']
    for x, y in itertools.product(fl, repeat=2):
        big = fl[max(fl.index(x), fl.index(y))]
        for p, q in ((C % x, C % y), (C % x, y), (x, C % y), (x, y)):
            same('complex_promote<%s, %s>' % (p, q), 'sprout::complex_promote<%s, %s>::type' % (p, q), C % big, 'sprout/complex.hpp ' + tr('complex_promote'))
    for x in fl:
        same('complex_promote<%s>' % x, 'sprout::complex_promote<%s>::type' % x, C % x, 'sprout/complex.hpp ' + tr('complex_promote'))
        same('complex_promote<complex<%s>>' % x, 'sprout::complex_promote<%s>::type' % (C % x), C % x, 'sprout/complex.hpp ' + tr('complex_promote'))
    same('complex_promote<int>', 'sprout::complex_promote<int>::type', C % 'double', 'sprout/complex.hpp ' + tr('complex_promote'))
    # ---- F7
    m = lambda n: 'sprout/cmath.hpp sprout/math/comparisons.hpp'
    for n in MATH1:
        for x in MARITH:
            same('%s(%s)' % (n, x), 'decltype(sprout::%s(zt::obj<%s>()))' % (n, x), 'decltype(std::%s(zt::obj<%s>()))' % (n, x), m(n))
    for n in MATH1B:
        for x in MARITH:
            same('%s(%s)' % (n, x), 'decltype(sprout::%s(zt::obj<%s>()))' % (n, x), 'int' if n == 'fpclassify' else 'bool', m(n))
    for n in MATH2:
        for x, y in itertools.product(MARITH, repeat=2):
            same('%s(%s, %s)' % (n, x, y), 'decltype(sprout::%s(zt::obj<%s>(), zt::obj<%s>()))' % (n, x, y), 'zt::fp<%s, %s>::type' % (x, y), m(n))
    for n in MATH2B:
        for x, y in itertools.product(MARITH, repeat=2):
            same('%s(%s, %s)' % (n, x, y), 'decltype(sprout::math::%s(zt::obj<%s>(), zt::obj<%s>()))' % (n, x, y), 'bool', m(n))
    for x, y, z in itertools.product(('int', 'float', 'double', 'long double'), repeat=3):
        same('fma(%s, %s, %s)' % (x, y, z), 'decltype(sprout::fma(zt::obj<%s>(), zt::obj<%s>(), zt::obj<%s>()))' % (x, y, z), 'zt::fp<%s, %s, %s>::type' % (x, y, z), m('fma'))
    for x in MARITH:
        for n, a in (('scalbn', 'int'), ('scalbln', 'long'), ('ldexp', 'int')):
            same('%s(%s)' % (n, x), 'decltype(sprout::%s(zt::obj<%s>(), zt::obj<%s>()))' % (n, x, a), 'zt::fp<%s>::type' % x, m(n))
        for n, a in (('frexp', 'int'), ('modf', None)):
            pass
    # ---- F8
    it = 'sprout/index_tuple.hpp'
    for n in list(range(0, 18)) + [31, 32, 33, 63, 64, 65, 100, 127, 128, 255, 256, 257]:
        same('make_index_tuple<%d>' % n, 'sprout::make_index_tuple<%d>::type' % n, idx(range(n)), it)
        same('make_uindex_tuple<%d>' % n, 'sprout::make_uindex_tuple<%d>::type' % n, 'sprout::uindex_tuple<%s>' % ', '.join(map(str, range(n))), it)
        same('make_integer_sequence<short,%d>' % n, 'sprout::make_integer_sequence<short, %d>::type' % n, seq('short', range(n)), it)
        same('make_index_sequence<%d>' % n, 'sprout::make_index_sequence<%d>::type' % n, 'sprout::index_sequence<%s>' % ', '.join(map(str, range(n))), it)
        same('index_n<7,%d>' % n, 'sprout::index_n<7, %d>::type' % n, idx([7] * n), it)
        same('uindex_n<3,%d>' % n, 'sprout::uindex_n<3, %d>::type' % n, 'sprout::uindex_tuple<%s>' % ', '.join(['3'] * n), it)
        same('integer_n<char,65,%d>' % n, 'sprout::integer_n<char, 65, %d>::type' % n, seq('char', [65] * n), it)
    for a in (-5, -1, 0, 1, 4, 9):
        for c in (-7, -5, -1, 0, 2, 4, 5, 13):
            same('index_range<%d,%d>' % (a, c), 'sprout::index_range<%d, %d>::type' % (a, c), idx(range(a, c) if a <= c else range(a, c, -1)), it)
            for s in (-3, -2, -1, 1, 2, 3, 5):
                if (a < c and s > 0) or (a > c and s < 0) or a == c:
                    same('index_range<%d,%d,%d>' % (a, c, s), 'sprout::index_range<%d, %d, %d>::type' % (a, c, s), idx(range(a, c, s)), it)
                    same('integer_range<int,%d,%d,%d>' % (a, c, s), 'sprout::integer_range<int, %d, %d, %d>::type' % (a, c, s), seq('int', range(a, c, s)), it)
    for a, c, s in ((0, 5, 1), (2, 11, 3), (7, 0, -2), (3, 3, 1)):
        same('uindex_range<%d,%d,%d>' % (a, c, s), 'sprout::uindex_range<%d, %d, %d>::type' % (a, c, s), 'sprout::uindex_tuple<%s>' % ', '.join(map(str, range(a, c, s))), it)
    for k in range(6):
        ts = ', '.join(['int', 'zt::pod', 'void', 'int&', 'char[2]'][:k])
        same('index_pack/%d' % k, 'sprout::index_pack<%s>::type' % ts, idx(range(k)), it)
        same('uindex_pack/%d' % k, 'sprout::uindex_pack<%s>::type' % ts, 'sprout::uindex_tuple<%s>' % ', '.join(map(str, range(k))), it)
        same('index_sequence_for/%d' % k, 'sprout::index_sequence_for<%s>::type' % ts, 'sprout::make_index_sequence<%d>::type' % k, it)
        same('integer_pack/%d' % k, 'sprout::integer_pack<long%s>::type' % (', ' + ts if ts else ''), seq('long', range(k)), it)
    for t, bits in (('signed char', 7), ('unsigned char', 8), ('short', 15), ('unsigned short', 16), ('int', 31), ('unsigned', 32), ('long', 63), ('unsigned long', 64)):
        for base in range(2, 17):
            w('integer_digits<%s,%d>' % (t, base), 'sprout::integer_digits<%s, %d>::value == %d' % (t, base, exact_digits(bits, base)), 'sprout/integer/integer_digits.hpp')
    for k in range(31):
        w('static_pow2<int,%d>' % k, 'sprout::static_pow2<int, %d>::value == %d' % (k, 2 ** k), 'sprout/integer/static_pow.hpp')
        if k: w('static_pow2m1<int,%d>' % k, 'sprout::static_pow2m1<int, %d>::value == %d' % (k, 2 ** k - 1), 'sprout/integer/static_pow.hpp')
    for k in (31, 32, 63): w('static_pow2m1<u64,%d>' % k, 'sprout::static_pow2m1<unsigned long, %d>::value == %dul' % (k, 2 ** k - 1), 'sprout/integer/static_pow.hpp')
    for x in (1, 2, 3, 5, 7, 10):
        for y in range(0, 19):
            if x ** y < 2 ** 63: w('static_pow<%d,%d>' % (x, y), 'sprout::static_pow<unsigned long, %d, %d>::value == %dul' % (x, y, x ** y), 'sprout/integer/static_pow.hpp')
    # ---- F9
    ty = 'sprout/type.hpp'
    for i, e in enumerate(['int', 'char&', 'zt::pod', 'void']):
        same('tuple_element<%d, packer>' % i, 'sprout::types::tuple_element<%d, sprout::types::packer<int, char&, zt::pod, void> >::type' % i, e, ty)
        same('tuple_element<%d, type_tuple>' % i, 'std::tuple_element<%d, sprout::types::type_tuple<int, char&, zt::pod, void> >::type' % i, e, ty)
    for t, vs in (('char', ("'a'", "'q'", "'b'")), ('bool', ('true', 'false', 'true')), ('short', (3, -1, 2)), ('unsigned char', (3, 200, 7)), ('wchar_t', ("L'x'", "L'y'", "L'z'")), ('unsigned long', (9, 8, 7)), ('long long', (-9, 8, 7)), ('signed char', (-1, 4, 2)), ('char16_t', (1, 2, 4)), ('char32_t', (5, 2, 4)), ('unsigned short', (1, 3, 2)), ('unsigned', (1, 3, 2)), ('long', (-1, 3, 2)), ('unsigned long long', (1, 3, 2)), ('int', (-1, 3, 2))):
        for i, v in enumerate(vs):
            same('tuple_element<%d, integer_sequence<%s>>' % (i, t), 'sprout::types::tuple_element<%d, sprout::integer_sequence<%s, %s> >::type' % (i, t, ', '.join(map(str, vs))), 'sprout::integral_constant<%s, %s>' % (t, v), ty)
            same('tuple_element<%d, zt::vals<%s>>' % (i, t), 'sprout::types::tuple_element<%d, zt::vals_%s<%s> >::type' % (i, t.replace(' ', '_'), ', '.join(map(str, vs))), 'sprout::integral_constant<%s, %s>' % (t, v), ty)
        w('tuple_size<zt::vals<%s>>' % t, 'sprout::types::tuple_size<zt::vals_%s<%s> >::value == 3 && sprout::types::tuple_size<zt::vals_%s<> >::value == 0' % (t.replace(' ', '_'), ', '.join(map(str, vs)), t.replace(' ', '_')), ty)
    ic = lambda k: 'zt::ic<%d>' % k
    icc = lambda k: 'sprout::integral_constant<int, %d>' % k

    def val(key, a, v): w(key, '%s::value == %s' % (a, v if not isinstance(v, bool) else b(v)), ty)
    lists = [[], [4, 6, 2, 3], [2, 2, 1, 2], [1, 2, 2, 3, 2, 5, 2], [4], [3], [4, 6], [3, 4], [4, 3], [1, 3], [2, 2, 2], [5, 2, 5], [1, 2, 3, 4], [8, 6, 4, 2, 0], [7, 1, 7, 3, 7, 9, 7], [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10]]
    for L in lists:
        T = lst([ic(x) for x in L])
        N = len(L)
        nm = str(L)
        val('types::size' + nm, 'sprout::types::size<%s>' % T, N)
        val('types::empty' + nm, 'sprout::types::empty<%s>' % T, N == 0)
        val('types::tuple_size' + nm, 'sprout::types::tuple_size<%s>' % T, N)
        ev = [x % 2 == 0 for x in L]
        for n, v in (('all_of', all(ev)), ('any_of', any(ev)), ('none_of', not any(ev)), ('one_of', sum(ev) == 1), ('contains_if', any(ev)), ('count_if', sum(ev)), ('find_index_if', ev.index(True) if True in ev else N)):
            if n == 'one_of' and False: continue
            val('types::%s%s' % (n, nm), 'sprout::types::%s<%s, zt::even>' % (n, T), v)
        for q in (2, 7, 10, 99):
            f = [x == q for x in L]
            for n, v in (('all_of_same', all(f)), ('any_of_same', any(f)), ('none_of_same', not any(f)), ('one_of_same', sum(f) == 1), ('contains', any(f)), ('count', sum(f)), ('find_index', f.index(True) if True in f else N)):
                val('types::%s%s/%d' % (n, nm, q), 'sprout::types::%s<%s, %s>' % (n, T, ic(q)), v)
        s = sorted(L)
        S = lst([icc(x) for x in s]); SR = lst([ic(x) for x in reversed(s)])
        import bisect
        for q in (-1, 2, 3, 5, 7, 12):
            val('types::lower_bound_index%s/%d' % (s, q), 'sprout::types::lower_bound_index<%s, %s>' % (S, icc(q)), bisect.bisect_left(s, q))
            val('types::upper_bound_index%s/%d' % (s, q), 'sprout::types::upper_bound_index<%s, %s>' % (S, icc(q)), bisect.bisect_right(s, q))
            val('types::lower_bound_index>%s/%d' % (s, q), 'sprout::types::lower_bound_index<%s, %s, zt::gt>' % (SR, ic(q)), sum(x > q for x in s))
            val('types::upper_bound_index>%s/%d' % (s, q), 'sprout::types::upper_bound_index<%s, %s, zt::gt>' % (SR, ic(q)), sum(x >= q for x in s))
        acc = 100
        for x in L: acc -= x
        same('types::fold' + nm, 'sprout::types::fold<%s, %s, zt::sub>::type' % (T, ic(100)), ic(acc), ty)
        val('types::accumulate' + nm, 'sprout::types::accumulate<%s, %s>::type' % (lst([icc(x) for x in L]), icc(1)), 1 + sum(L))
        ps = []; a = None
        for x in L: a = x if a is None else a - x; ps.append(a)
        same('types::partial_sum' + nm, 'sprout::types::partial_sum<%s, zt::sub>::type' % T, lst([ic(x) for x in ps]), ty)
        same('types::transform' + nm, 'sprout::types::transform<%s, zt::tri>::type' % T, lst([ic(3 * x) for x in L]), ty)
        same('types::transform2' + nm, 'sprout::types::transform<%s, %s, zt::sub>::type' % (T, lst([ic(i) for i in range(N)])), lst([ic(x - i) for i, x in enumerate(L)]), ty)
        same('types::map' + nm, 'sprout::types::map<%s, zt::tri>::type' % T, lst([ic(3 * x) for x in L]), ty)
        for i in range(N):
            same('types::at%s/%d' % (nm, i), 'sprout::types::at<%s, %d>::type' % (T, i), ic(L[i]), ty)
            same('types::tuple_element%s/%d' % (nm, i), 'sprout::types::tuple_element<%d, %s>::type' % (i, T), ic(L[i]), ty)
        if N:
            same('types::front' + nm, 'sprout::types::front<%s>::type' % T, ic(L[0]), ty)
            same('types::back' + nm, 'sprout::types::back<%s>::type' % T, ic(L[-1]), ty)
            same('types::pop_front' + nm, 'sprout::types::pop_front<%s>::type' % T, lst([ic(x) for x in L[1:]]), ty)
            same('types::pop_back' + nm, 'sprout::types::pop_back<%s>::type' % T, lst([ic(x) for x in L[:-1]]), ty)
        same('types::push_front' + nm, 'sprout::types::push_front<%s, int, zt::pod>::type' % T, lst(['int', 'zt::pod'] + [ic(x) for x in L]), ty)
        same('types::push_back' + nm, 'sprout::types::push_back<%s, int, zt::pod>::type' % T, lst([ic(x) for x in L] + ['int', 'zt::pod']), ty)
        same('types::rebind' + nm, 'sprout::types::rebind<%s, int, char>::type' % T, lst(['int', 'char']), ty)
        for M in ([], [[1]], [[1, 2], [3]], [[], [5], [6, 7]]):
            TT = [T] + [lst([ic(x) for x in m_]) for m_ in M]
            cat = L + sum(M, [])
            same('types::tuple_cat%s%s' % (nm, M), 'sprout::types::tuple_cat<%s>::type' % ', '.join(TT), lst([ic(x) for x in cat]), ty)
            same('types::append_back%s%s' % (nm, M), 'sprout::types::append_back<%s>::type' % ', '.join(TT), lst([ic(x) for x in cat]), ty)
            same('types::append_front%s%s' % (nm, M), 'sprout::types::append_front<%s>::type' % ', '.join(TT), lst([ic(x) for x in sum(M, []) + L]), ty)
        same('types::assign' + nm, 'sprout::types::assign<sprout::types::type_tuple<char>, %s>::type' % T, T, ty)
        same('types::begin/next' + nm, 'sprout::types::deref<sprout::types::begin<%s>::type>::type' % T, ic(L[0]), ty) if N and False else None
        # other carriers of a type list, and iterators over one
        for car, h in (('std::tuple', ty), ('sprout::tuples::tuple', ty + ' sprout/tuple.hpp'), ('zt::tlist', ty)):
            if car == 'zt::tlist' and not HAVE_TLIST: continue
            cl = lambda xs: '%s<%s>' % (car, ', '.join(xs))
            C2 = cl([ic(x) for x in L])
            nc = '%s%s' % (car, L)
            w('types::size ' + nc, 'sprout::types::size<%s>::value == %d' % (C2, N), h)
            w('types::empty ' + nc, 'sprout::types::empty<%s>::value == %s' % (C2, b(N == 0)), h)
            w('types::count_if ' + nc, 'sprout::types::count_if<%s, zt::even>::value == %d' % (C2, sum(ev)), h)
            w('types::find_index_if ' + nc, 'sprout::types::find_index_if<%s, zt::even>::value == %d' % (C2, ev.index(True) if True in ev else N), h)
            if N:
                same('types::front ' + nc, 'sprout::types::front<%s>::type' % C2, ic(L[0]), h)
                same('types::back ' + nc, 'sprout::types::back<%s>::type' % C2, ic(L[-1]), h)
                same('types::pop_front ' + nc, 'sprout::types::pop_front<%s>::type' % C2, cl([ic(x) for x in L[1:]]), h)
                same('types::pop_back ' + nc, 'sprout::types::pop_back<%s>::type' % C2, cl([ic(x) for x in L[:-1]]), h)
            same('types::push_front ' + nc, 'sprout::types::push_front<%s, int, zt::pod>::type' % C2, cl(['int', 'zt::pod'] + [ic(x) for x in L]), h)
            same('types::push_back ' + nc, 'sprout::types::push_back<%s, int, zt::pod>::type' % C2, cl([ic(x) for x in L] + ['int', 'zt::pod']), h)
            same('types::rebind ' + nc, 'sprout::types::rebind<%s, int, char>::type' % C2, cl(['int', 'char']), h)
            same('types::append_back ' + nc, 'sprout::types::append_back<%s, %s>::type' % (C2, lst(['int', ic(5)])), cl([ic(x) for x in L] + ['int', ic(5)]), h)
            same('types::append_front ' + nc, 'sprout::types::append_front<%s, %s>::type' % (C2, lst(['int', ic(5)])), cl(['int', ic(5)] + [ic(x) for x in L]), h)
            same('types::tuple_cat ' + nc, 'sprout::types::tuple_cat<%s, %s, std::tuple<char> >::type' % (C2, lst(['int', ic(5)])), cl([ic(x) for x in L] + ['int', ic(5), 'char']), h)
            same('types::assign ' + nc, 'sprout::types::assign<%s, %s>::type' % (cl(['char']), T), C2, h)
            same('types::map ' + nc, 'sprout::types::map<%s, zt::tri>::type' % C2, cl([ic(3 * x) for x in L]), h)
            same('types::transform ' + nc, 'sprout::types::transform<%s, zt::tri>::type' % C2, cl([ic(3 * x) for x in L]), h)
            same('types::partial_sum ' + nc, 'sprout::types::partial_sum<%s, zt::sub>::type' % C2, cl([ic(x) for x in ps]), h)
        bg = 'sprout::types::begin<%s>::type' % T; en = 'sprout::types::end<%s>::type' % T
        w('types::distance' + nm, 'sprout::types::distance<%s, %s>::value == %d' % (bg, en, N), ty)
        if N: same('types::advance' + nm, 'sprout::types::advance<%s, %s>::type' % (bg, 'std::integral_constant<std::ptrdiff_t, %d>' % N) if False else 'sprout::types::advance<%s, %d>::type' % (bg, N), en, ty)
        it_ = bg
        for i in range(N):
            same('types::deref%s/%d' % (nm, i), 'sprout::types::deref<%s>::type' % it_, ic(L[i]), ty)
            same('types::advance%s/%d' % (nm, i), 'sprout::types::advance<%s, %d>::type' % (bg, i), it_, ty)
            if i < N - 1: same('types::advance%s/-%d' % (nm, N - 1 - i), 'sprout::types::advance<sprout::types::advance<%s, %d>::type, -%d>::type' % (bg, N - 1, N - 1 - i), it_, ty)
            it2 = 'sprout::types::next<%s>::type' % it_
            if i < N - 1: same('types::prev%s/%d' % (nm, i), 'sprout::types::prev<%s>::type' % it2, it_, ty)
            it_ = it2
        same('types::next*' + nm, it_, en, ty)
        for q in (2, 7, 10) if N else ():
            same('types::seq::find%s/%d' % (nm, q), 'sprout::types::seq::find<%s, %s>::type' % (T, ic(q)), 'sprout::types::advance<%s, %d>::type' % (bg, L.index(q) if q in L else N), ty + ' sprout/type/seq/algorithm.hpp')
        if N: same('types::seq::find_if' + nm, 'sprout::types::seq::find_if<%s, zt::even>::type' % T, 'sprout::types::advance<%s, %d>::type' % (bg, ev.index(True) if True in ev else N), ty + ' sprout/type/seq/algorithm.hpp')
        # values as sequences
        if N:
            same('types::pop_front seq' + nm, 'sprout::types::pop_front<%s>::type' % seq('int', L), seq('int', L[1:]), ty)
            same('types::map seq' + nm, 'sprout::types::map<%s, zt::tri>::type' % seq('int', L), seq('int', [3 * x for x in L]), ty)
            same('types::front seq' + nm, 'sprout::types::front<sprout::types::integral_array<int, %s> >::type' % ', '.join(map(str, L)), 'sprout::integral_constant<int, %d>' % L[0], ty)
    for L in (['zt::base', 'zt::derived'], ['zt::derived', 'zt::derived', 'zt::base', 'zt::derived*'], ['int', 'long', 'int const', 'int&', 'short', 'int'], ['int*', 'void*', 'int const*', 'std::nullptr_t', 'int*', 'int*', 'int*'], ['int&', 'int&&', 'int', 'int', 'int&']):
        T = lst(L); N = len(L)
        for q in sorted(set(L)) + ['bool', 'void']:
            f = [x == q for x in L]
            for n, v in (('all_of_same', all(f)), ('any_of_same', any(f)), ('none_of_same', not any(f)), ('one_of_same', sum(f) == 1), ('contains', any(f)), ('count', sum(f)), ('find_index', f.index(True) if True in f else N)):
                val('types::%s%s/%s' % (n, L, q), 'sprout::types::%s<%s, %s>' % (n, T, q), v)
            same('types::seq::find%s/%s' % (L, q), 'sprout::types::seq::find<%s, %s>::type' % (T, q), 'sprout::types::advance<sprout::types::begin<%s>::type, %d>::type' % (T, f.index(True) if True in f else N), ty + ' sprout/type/seq/algorithm.hpp')
    for x, y in itertools.product((-7, -2, 0, 1, 3, 8), repeat=2):
        A, B = icc(x), icc(y)
        ops = [('plus', x + y), ('minus', x - y), ('multiplies', x * y), ('equal_to', x == y), ('not_equal_to', x != y), ('less', x < y), ('greater', x > y), ('less_equal', x <= y), ('greater_equal', x >= y)]
        if y: ops += [('divides', int(x / y)), ('modulus', x - y * int(x / y))]
        for n, v in ops:
            val('types::%s<%d,%d>' % (n, x, y), 'sprout::types::%s<%s, %s>::type' % (n, A, B), v)
            val('types::%s_<%d,%d>' % (n, x, y), 'sprout::types::apply<sprout::types::%s_, %s, %s>::type' % (n, A, B), v)
        val('types::negate<%d>' % x, 'sprout::types::negate<%s>::type' % A, -x)
        val('types::posite<%d>' % x, 'sprout::types::posite<%s>::type' % A, x)
    # ---- F10 tuple protocol and container typedefs
    tp = 'sprout/tuple.hpp sprout/array.hpp sprout/complex.hpp sprout/rational.hpp sprout/string.hpp sprout/utility/pair.hpp sprout/range/subrange.hpp' if False else 'sprout/tuple.hpp sprout/array.hpp sprout/complex.hpp sprout/rational.hpp sprout/utility/pair.hpp'
    TUP = [('sprout::tuple<int, char&, zt::pod const>', ['int', 'char&', 'zt::pod const']), ('sprout::tuple<>', []), ('sprout::pair<int, double*>', ['int', 'double*']), ('sprout::array<long, 3>', ['long'] * 3), ('sprout::array<long, 0>', []),
           ('std::tuple<int, void*>', ['int', 'void*']), ('std::pair<char, int&>', ['char', 'int&']), ('sprout::complex<float>', ['float'] * 2), ('sprout::rational<int>', ['int'] * 2)]
    for T, E in TUP:
        for q in ('', ' const', ' volatile', ' const volatile'):
            w('tuple_size<%s%s>' % (T, q), 'sprout::tuples::tuple_size<%s%s>::value == %d' % (T, q, len(E)), tp)
            for i, e in enumerate(E):
                same('tuple_element<%d, %s%s>' % (i, T, q), 'sprout::tuples::tuple_element<%d, %s%s>::type' % (i, T, q), 'std::add_const<%s>::type' % e if q == ' const' else 'std::add_cv<%s>::type' % e if q == ' const volatile' else 'std::add_volatile<%s>::type' % e if q else e, tp)
                if not q and 'rational' not in T:
                    same('tuple_get<%d>(%s&)' % (i, T), 'decltype(sprout::tuples::get<%d>(zt::obj<%s&>()))' % (i, T), 'std::add_lvalue_reference<%s>::type' % e, tp)
                    same('tuple_get<%d>(%s const&)' % (i, T), 'decltype(sprout::tuples::get<%d>(zt::obj<%s const&>()))' % (i, T), 'std::add_lvalue_reference<std::add_const<%s>::type>::type' % e, tp)
                    same('tuple_get<%d>(%s&&)' % (i, T), 'decltype(sprout::tuples::get<%d>(zt::obj<%s&&>()))' % (i, T), 'std::add_rvalue_reference<%s>::type' % e, tp)
    TE = ['int', 'int&', 'int const&', 'long', 'double', 'zt::base', 'zt::derived', 'zt::conv', 'zt::base*', 'zt::derived*', 'std::nullptr_t', 'zt::pod']
    for a, c in itertools.product(TE, repeat=2):
        for S_, D in (('pair', 'pair'), ('tuple', 'tuple'), ('pair', 'tuple')):
            mk = lambda ns, k, x: '%s::%s<%s, int>' % (ns, k, x)
            for q in ('', '&', ' const&'):
                for n in ('is_constructible', 'is_convertible', 'is_assignable') if not c.endswith('&') else ('is_constructible', 'is_convertible'):
                    if n == 'is_convertible': o = ['%s%s, %s' % (mk(ns, S_, a), q, mk(ns, D, c)) for ns in ('sprout', 'std')]
                    else: o = ['%s%s, %s%s' % (mk(ns, D, c), '&' if n == 'is_assignable' else '', mk(ns, S_, a), q) for ns in ('sprout', 'std')]
                    w('%s<%s>' % (n, o[0]), 'std::%s<%s>::value == std::%s<%s>::value' % (n, o[0], n, o[1]), tp)
        for D in ('pair', 'tuple'):
            o = ['%s::%s<%s, int>, %s, long' % (ns, D, c, a) for ns in ('sprout', 'std')]
            w('is_constructible<%s>' % o[0], 'std::is_constructible<%s>::value == std::is_constructible<%s>::value' % tuple(o), tp)
    ct = 'sprout/container.hpp sprout/array.hpp sprout/string.hpp sprout/valarray.hpp sprout/sub_array.hpp sprout/bitset.hpp sprout/pit.hpp' if False else 'sprout/container.hpp sprout/array.hpp sprout/string.hpp'
    for C_, v, n in (('sprout::array<int, 4>', 'int', 4), ('sprout::array<zt::pod, 1>', 'zt::pod', 1), ('int[5]', 'int', 5), ('sprout::basic_string<char, 6>', 'char', 6)):
        k = lambda nm_, q='': 'sprout::container_traits<%s%s>::%s' % (C_ if '[' not in C_ or not q else C_.replace('[', ' const[') if q else C_, q if '[' not in C_ else '', nm_)
        same('container_traits<%s>::value_type' % C_, k('value_type'), v, ct)
        same('container_traits<%s>::reference' % C_, k('reference'), v + '&', ct)
        same('container_traits<%s>::const_reference' % C_, k('const_reference'), v + ' const&', ct)
        same('container_traits<%s const>::reference' % C_, k('reference', ' const'), v + ' const&', ct)
        same('container_traits<%s>::pointer' % C_, k('pointer'), v + '*', ct)
        same('container_traits<%s>::const_pointer' % C_, k('const_pointer'), v + ' const*', ct)
        same('container_traits<%s>::difference_type' % C_, k('difference_type'), 'std::ptrdiff_t', ct)
        same('container_traits<%s>::size_type' % C_, k('size_type'), 'std::size_t', ct)
        w('container_traits<%s>::static_size' % C_, k('static_size') + ' == %d' % n, ct)
        same('*container_traits<%s>::iterator' % C_, 'decltype(*zt::obj<%s>())' % k('iterator'), v + '&', ct)
        same('*container_traits<%s>::const_iterator' % C_, 'decltype(*zt::obj<%s>())' % k('const_iterator'), v + ' const&', ct)
        same('*container_traits<%s const>::iterator' % C_, 'decltype(*zt::obj<%s>())' % k('iterator', ' const'), v + ' const&', ct)
    # ---- F11 iterator categories
    ii = 'sprout/iterator.hpp'
    CAT = ['input', 'forward', 'bidirectional', 'random_access']
    IT = [('int*', 3), ('int const*', 3), ('std::reverse_iterator<int*>', 3), ('sprout::reverse_iterator<int*>', 3), ('sprout::counting_iterator<int>', 3), ('std::istreambuf_iterator<char>', 0), ('zt::none*', 3)]
    IT = IT[:-1]
    for t, r in IT:
        for i, c in enumerate(CAT):
            w('is_%s_iterator<%s>' % (c, t), 'sprout::is_%s_iterator<%s>::value == %s' % (c, t, b(i <= r)), ii)
    for t in ('int*', 'int const*', 'zt::pod*'):
        for n in ('value_type', 'reference', 'pointer', 'difference_type', 'iterator_category'):
            same('iterator_traits<%s>::%s' % (t, n), 'sprout::iterator_traits<%s>::%s' % (t, n), 'std::iterator_traits<%s>::%s' % (t, n), ii)
            same('reverse_iterator<%s>::%s' % (t, n), 'std::iterator_traits<sprout::reverse_iterator<%s> >::%s' % (t, n), 'std::iterator_traits<std::reverse_iterator<%s> >::%s' % (t, n), ii)
        for n in ('value_type', 'difference_type', 'iterator_category'):
            same('move_iterator<%s>::%s' % (t, n), 'std::iterator_traits<sprout::move_iterator<%s> >::%s' % (t, n), 'std::iterator_traits<std::move_iterator<%s> >::%s' % (t, n), ii)
        if 'const' not in t: same('*move_iterator<%s>' % t, 'decltype(*zt::obj<sprout::move_iterator<%s> >())' % t, 'decltype(*zt::obj<std::move_iterator<%s> >())' % t, ii)
    return W


def compile_shard(cc, std, ws, d, tag):
    src = os.path.join(d, tag + '.cpp')
    incs = []
    for w in ws:
        for i in w[2].split():
            if i not in incs: incs.append(i)
    head = ['#include <functional>', '#include <zt.hpp>'.replace('zt.hpp', 'types.hpp')] + ['#include <%s>' % i for i in incs]
    with open(src, 'w') as f:
        f.write('\n'.join(head + [w[1][5:] if w[1].startswith('DECL ') else 'static_assert(%s, "");' % w[1] for w in ws]) + '\n')
    cmd = [cc, '-std=c++%d' % std, '-fsyntax-only', '-w', '-I' + tu.REPO, '-I' + os.path.join(tu.VERIF, 'zoo'), '-ftemplate-depth=1024', src]
    if 'clang' in cc: cmd += ['-ferror-limit=0', '-fno-caret-diagnostics', '-ftemplate-backtrace-limit=0', '-Wno-invalid-constexpr', '-fno-color-diagnostics']
    else: cmd += ['-fmax-errors=0', '-ftemplate-backtrace-limit=0', '-fno-diagnostics-show-caret', '-fdiagnostics-color=never']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode == 0: return {}, []
    bad = {}; loose = []
    n0 = len(head)
    block = []
    cur = None
    pend = None
    for l in r.stderr.splitlines():
        mm = re.match(re.escape(src) + r':(\d+):', l)
        er = re.search(r': (?:fatal )?error: (.*)', l)
        if 'clang' in cc:
            if er:
                if pend: loose.append(pend)
                pend = l
            if mm and pend and int(mm.group(1)) > n0:
                bad.setdefault(int(mm.group(1)) - n0 - 1, re.sub(r'^.*?error: ', '', pend)); pend = None
        else:
            if mm and int(mm.group(1)) > n0: cur = int(mm.group(1)) - n0 - 1
            if er:
                if cur is not None: bad.setdefault(cur, er.group(1))
                else: loose.append(l)
                if mm: cur = None
    if pend: loose.append(pend)
    if not bad and not loose: loose.append(r.stderr[-300:])
    return bad, loose


def run(R, tier):
    R.rule('Witnesses are compile-time assertions on types: each trait, transformation, promotion, detection, index sequence, type-list algorithm, tuple and container typedef, iterator category and result type of a math function, '
           'applied to a zoo of types (fundamental, cv, references, pointers, arrays, functions, member pointers, enumerations, classes with each special member missing, throwing, trivial or private, operators of each shape), '
           'must give what the standard library gives, or what an independent detector or list computation gives. Type-checked by g++ and clang++ in C++11 and C++17; a witness that does not type-check is a violation too.')
    R.assume.append('the type traits of libstdc++ and the overload resolution of g++ 13 and clang 18 are the oracle for the standard-named functions')
    os.makedirs(tu.BUILD, exist_ok=True)
    d = tempfile.mkdtemp(prefix='c11', dir=tu.BUILD)
    confs = [('clang++', 17), ('g++', 11)] if tier == 'quick' else [('clang++', 11), ('clang++', 14), ('clang++', 17), ('g++', 11), ('g++', 14), ('g++', 17)]
    results = {}
    try:
        jobs = []
        for cc, std in confs:
            ws = generate(std)
            groups = {}
            for w in ws: groups.setdefault(w[2], []).append(w)
            # shards of headers that go together
            shards = [[] for _ in range(4)]
            for g in sorted(groups.values(), key=len, reverse=True):
                min(shards, key=len).extend(g)
            for k, s in enumerate(shards):
                if s: jobs.append((cc, std, s, '%s%d_%d' % (cc.replace('+', 'x'), std, k)))
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(lambda j: compile_shard(j[0], j[1], j[2], d, j[3]), jobs))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    seen = set(); nloose = 0
    for (cc, std, ws, tag), (bad, loose) in zip(jobs, outs):
        R.count('witnesses %s c++%d' % (cc, std), len(ws))
        for i, w in enumerate(ws):
            if i in bad:
                if w[0] not in seen:
                    seen.add(w[0])
                    R.bad('%s' % w[0], '%s (sprout header %s): does not hold: %s [%s -std=c++%d: %s]' % (w[0], w[2].split()[0], w[1], cc, std, bad[i][:200]))
            else:
                R.ok()
        if loose and not bad:
            nloose += 1
            R.bad('headers ' + tag.split('_')[0], 'the headers the witnesses include do not compile: %s' % loose[0][:300])
    R.count('witnesses', sum(len(j[2]) for j in jobs)); R.floor('witnesses', 30000)


if __name__ == '__main__':
    sys.exit(main('C11', run))
