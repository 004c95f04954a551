"""Builds the translation units that are analysed, from /repo's current tree, and runs the dumper over them."""
import os, re, sys, json, subprocess, hashlib, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SPROUT_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SPX = os.path.join(BUILD, 'spx')

# headers that no configuration can include here, each with the reason
NOT_INCLUDABLE = {
    'sprout/compost/load/source.hpp': 'includes a file named by the user\'s macro',
    'sprout/darkroom/load/texture.hpp': 'includes a file named by the user\'s macro',
}
NOT_INCLUDABLE_RX = [
    (re.compile(r'^sprout/(adapt|.*)?/?sscrisk/'), 'adapts the third-party library sscrisk/cel, not installed'),
    (re.compile(r'sscrisk/cel'), 'adapts the third-party library sscrisk/cel, not installed'),
    (re.compile(r'^sprout/config/compiler/'), 'selected by sprout/config.hpp for one compiler'),
    (re.compile(r'^sprout/config/stdlib/'), 'selected by sprout/config.hpp for one standard library'),
    (re.compile(r'^sprout/config/(compiler|stdlib|auto_config|suffix|user_config)\.hpp$'), 'part of sprout/config.hpp'),
]

# the configurations of sprout/config/user_config.hpp that are analysed besides the two that follow the compiler
CONFIGS = {
    'portable': [],
    'pointer': ['DISABLE_SUPPORT_TEMPORARY_CONTAINER_ITERATION'],       # pointers as the iterators of arrays and strings
    'plain': ['DISABLE_TEMPLATE_ALIASES', 'DISABLE_DELEGATING_CONSTRUCTORS', 'DISABLE_VARIABLE_TEMPLATES', 'DISABLE_DELETED_FUNCTIONS', 'DISABLE_EXPLICIT_CONVERSION_OPERATORS',
              'DISABLE_NOEXCEPT', 'DISABLE_USER_DEFINED_LITERALS', 'DISABLE_BUILTIN_CMATH_FUNCTION', 'DISABLE_BUILTIN_COPYSIGN_FUNCTION', 'DISABLE_BUILTIN_BIT_OPERATION',
              'DISABLE_LARGE_FLOAT_ROUNDING', 'DISABLE_SUPPORT_EFFICIENT_ARRAY_ITERATION'],
}

STD_PRELUDE = '''algorithm array atomic bitset cassert cctype cerrno cfenv cfloat chrono cinttypes climits clocale cmath complex
condition_variable csetjmp csignal cstdarg cstddef cstdint cstdio cstdlib cstring ctime cwchar cwctype deque exception
forward_list fstream functional future initializer_list iomanip ios iosfwd iostream istream iterator limits list locale map
memory mutex new numeric ostream queue random ratio regex set sstream stack stdexcept streambuf string system_error thread
tuple type_traits typeindex typeinfo unordered_map unordered_set utility valarray vector'''.split()


class AnalysisBroken(Exception):
    pass


def headers(root=None):
    root = root or REPO
    r = []
    for base in ('sprout',):
        for d, ds, fs in os.walk(os.path.join(root, base)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith('.hpp'):
                    r.append(os.path.relpath(os.path.join(d, f), root))
    return sorted(r)


def skip_reason(h):
    if h in NOT_INCLUDABLE:
        return NOT_INCLUDABLE[h]
    for rx, why in NOT_INCLUDABLE_RX:
        if rx.search(h):
            return why
    return None


def includable():
    return [h for h in headers() if not skip_reason(h)]


def build_tool():
    r = subprocess.run(['bash', os.path.join(VERIF, 'tool', 'build.sh')], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken('the dumper does not build: ' + r.stderr[-2000:])


def prelude(mode):
    if mode in CONFIGS:
        return ''.join('#define SPROUT_CONFIG_%s\n' % m for m in CONFIGS[mode])
    s = ''.join('#include <%s>\n' % h for h in STD_PRELUDE)
    # what g++ 13 predefines and sprout/config tests
    s += '#undef __clang__\n#undef __GNUC__\n#define __GNUC__ 13\n#undef __GNUC_MINOR__\n#define __GNUC_MINOR__ 3\n'
    return s


def treehash(extra=''):
    h = hashlib.sha256()
    for p in [SPX] + [os.path.join(REPO, x) for x in headers()]:
        h.update(p.encode()); h.update(b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    h.update(extra.encode())
    return h.hexdigest()[:24]


class Unit:
    """One parsed translation unit: its declarations, indexed."""
    def __init__(self, name, decls):
        self.name = name
        self.decls = decls
        self.fns = [d for d in decls if d['t'] == 'fn']
        self.recs = [d for d in decls if d['t'] == 'rec']
        self.vars = [d for d in decls if d['t'] == 'var']
        self.byid = {}
        for d in decls:
            if d['t'] in ('using',):
                continue
            o = self.byid.get(d['id'])
            if o is None or ('body' in d and 'body' not in o) or (o['t'] in ('xfn', 'xdecl', 'field') and d['t'] not in ('xfn', 'xdecl', 'field')):
                self.byid[d['id']] = d
        self.using = {}
        for d in decls:
            if d['t'] == 'using':
                self.using[d['id']] = d
        self.byq = {}
        for d in self.fns:
            self.byq.setdefault(d['q'], []).append(d)
        self.recq = {}
        for d in self.recs:
            self.recq.setdefault(d['q'], []).append(d)


def dump_all(units):
    """units: list of (name, mode, std, source text, inst) -> dict name -> Unit.  Parses afresh from REPO."""
    build_tool()
    os.makedirs(BUILD, exist_ok=True)
    cache = os.path.join(BUILD, 'cache')
    os.makedirs(cache, exist_ok=True)
    base = treehash()
    def one(u):
        name, mode, std, src, inst = u
        key = hashlib.sha256((base + mode + std + src + str(inst)).encode()).hexdigest()[:24]
        out = os.path.join(cache, '%s-%s.jsonl' % (name, key))
        if not os.path.exists(out):
            d = tempfile.mkdtemp(prefix='spx', dir=BUILD)
            try:
                f = os.path.join(d, name + '.cpp')
                with open(f, 'w') as fh:
                    fh.write(prelude(mode) + src)
                cmd = [SPX, os.path.join(d, 'o'), os.path.realpath(REPO) + '/'] + (['--inst'] if inst else []) + [f, '--', '-std=' + std, '-I' + REPO, '-I' + os.path.join(VERIF, 'zoo'), '-w', '-Wno-invalid-constexpr', '-ferror-limit=50', '-ftemplate-depth=2048', '-fconstexpr-depth=4096']
                r = subprocess.run(cmd, capture_output=True, text=True)
                if r.returncode:
                    errs = [l for l in r.stderr.splitlines() if 'error:' in l]
                    raise AnalysisBroken('unit %s does not parse: %s' % (name, '; '.join(errs[:8]) or r.stderr[-500:]))
                os.rename(os.path.join(d, 'o'), out)
            finally:
                shutil.rmtree(d, ignore_errors=True)
        with open(out) as fh:
            return name, Unit(name, [json.loads(l) for l in fh])
    with ThreadPoolExecutor(8) as ex:
        res = dict(ex.map(one, units))
    # keep the cache small: a handful of newest trees
    fs = sorted((os.path.join(cache, f) for f in os.listdir(cache)), key=os.path.getmtime)
    for f in fs[:-24]:
        os.unlink(f)
    return res


def all_headers_src():
    return ''.join('#include <%s>\n' % h for h in includable())


def header_units(which=('portable11', 'portable17', 'gcc11', 'gcc17')):
    src = all_headers_src()
    us = []
    for w in which:
        mode = w[:-2]
        us.append((w, mode, 'c++' + w[-2:], src, False))
    return dump_all(us)


def refs_dump(std='c++17', src=None, mode='portable', name='refs'):
    """the name-reference and include graph of all headers in one translation unit"""
    build_tool()
    src = src or all_headers_src()
    d = tempfile.mkdtemp(prefix='spx', dir=BUILD)
    try:
        f = os.path.join(d, name + '.cpp')
        with open(f, 'w') as fh:
            fh.write(prelude(mode) + src)
        root = os.path.realpath(REPO) + '/'
        cmd = [SPX, os.path.join(d, 'o'), root, '--refs', f, '--', '-std=' + std, '-I' + REPO, '-w', '-Wno-invalid-constexpr', '-ferror-limit=50', '-ftemplate-depth=2048']
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            errs = [l for l in r.stderr.splitlines() if 'error:' in l]
            raise AnalysisBroken('unit %s does not parse: %s' % (name, '; '.join(errs[:8]) or r.stderr[-500:]))
        with open(os.path.join(d, 'o')) as fh:
            return [json.loads(l) for l in fh], f
    finally:
        shutil.rmtree(d, ignore_errors=True)
