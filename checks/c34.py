"""C34: every argument counts: no named parameter is ignored, constructors put each argument into its member and leave none unset."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import tu
from ir import loc, sig, nodes, walk
from check import main

# parameters that by their meaning cannot influence the value: confirmed by reading
IGNORED = {
    ('sprout::fixed::detail::sort', 'comp'): 'containers of at most one element are sorted already',
    ('sprout::strtoimax', 'endptr'): 'the overload for nullptr', ('sprout::strtoumax', 'endptr'): 'the overload for nullptr',
    ('sprout::fixed::detail::exclusive_scan_impl_1', 'temp'): 'end of the recursion', ('sprout::fixed::detail::transform_exclusive_scan_impl_1', 'temp'): 'end of the recursion',
    ('sprout::random::end', 'engine'): 'only its type matters', ('sprout::random::end', 'distribution'): 'only its type matters',
}
SCALAR = re.compile(r'^(const )?(bool|char|wchar_t|char16_t|char32_t|(un)?signed( \w+)*|short|int|long( long)?|float|double|long double|unsigned( \w+)*|.*\*( ?const)?|long( unsigned)?( int)?)$')


def reads(f):
    """ids of the parameters read other than by (void)p"""
    out = set()

    def go(x):
        if not isinstance(x, list): return
        if x and x[0] == 'cast' and x[2] == 'void' and isinstance(x[4], list) and strip(x[4])[0] == 'parm':
            return
        if x and x[0] == 'expr' and len(x) > 1 and isinstance(x[1], list) and strip(x[1])[0] == 'parm':
            return
        if x and x[0] == 'parm':
            out.add(x[1]); return
        for y in x: go(y)

    def strip(e):
        while isinstance(e, list) and e and e[0] in ('icast',) and isinstance(e[3], list): e = e[3]
        return e if isinstance(e, list) and e else ['?']
    for i in f.get('inits', ()): go(i[3])
    go(f.get('body', []))
    return out


def plain(e):
    while isinstance(e, list) and e:
        if e[0] == 'plist' and len(e[1]) == 1: e = e[1][0]; continue
        if e[0] == 'ilist' and len(e[2]) == 1: e = e[2][0]; continue
        if e[0] == 'icast': e = e[3]; continue
        if e[0] == 'call' and isinstance(e[1], list) and len(e[2]) == 1 and str(e[1][2] if e[1][0] == 'func' else e[1][1]).split('::')[-1] in ('forward', 'move'): e = e[2][0]; continue
        if e[0] == 'ctor' and len(e[4]) == 1: e = e[4][0]; continue
        if e[0] == 'uctor' and len(e[3]) == 1: e = e[3][0]; continue
        if e[0] == 'cast': e = e[4]; continue
        break
    return e if isinstance(e, list) and e and e[0] == 'parm' else None


def check(R, tier):
    R.rule('Every named parameter of every function with a body is read in it (a cast to void is no reading); parameters that only select an overload are unnamed, a list of %d confirmed exceptions aside. '
           'A data member that has the name of a constructor parameter is initialised from that parameter. A constructor initialises every member of scalar type.' % len(IGNORED))
    R.assume += ['Reading a parameter is taken as using it; whether the use matters on every path is not decided here.']
    seen = set()
    for un in ('portable17', 'portable11', 'pointer17') if tier == 'quick' else ('portable17', 'portable11', 'portable14', 'gcc17', 'gcc11', 'pointer17', 'pointer11'):
        U = tu.header_units((un,))[un]
        recs = {r['id']: r for r in U.recs}
        for f in U.fns:
            if 'body' not in f or f.get('inst') or f.get('deleted') or f.get('defaulted'): continue
            if '/boost/' in f['file']: continue
            rd = None
            for p in f['params']:
                if not p[0]: continue
                R.count('named parameters')
                if rd is None: rd = reads(f)
                if p[1] in rd or (f['q'], p[0]) in IGNORED or f['name'] == 'remake' and p[0] == 'size':
                    R.ok(); continue
                k = '%s(%s) %s' % (f['q'], ','.join(x[3] for x in f['params']), p[0])
                if k in seen: continue
                seen.add(k)
                R.bad(k, '%s: %s ignores its parameter "%s"' % (loc(f), sig(f), p[0]))
            if f['kind'] == 'ctor': ctor(R, f, recs.get(f.get('cls')), seen)
    R.floor('named parameters', 12000)
    R.floor('constructors', 500)


def ctor(R, f, r, seen):
    if not r or 'fields' not in r or r.get('union'): return
    R.count('constructors')
    names = [p[0] for p in f['params'] if p[0]]
    inited = set()
    deleg = False
    for i in f.get('inits', ()):
        if i[0] == 'b' and re.sub(r'<.*', '', str(i[1])).split('::')[-1] == r['name']: deleg = True
        if i[0] == 'd': deleg = True
        if i[0] != 'm': continue
        inited.add(i[1])
        p = plain(i[3])
        b = i[1].rstrip('_')
        if p and p[2].strip('_') != b.strip('_') and any(n.strip('_') == b.strip('_') for n in names):
            k = '%s(%s) member %s' % (f['q'], ','.join(x[3] for x in f['params']), i[1])
            if k not in seen:
                seen.add(k)
                R.bad(k, '%s: %s initialises its member "%s" from the parameter "%s"' % (loc(f), sig(f), i[1], p[2]))
        else: R.ok()
    if deleg or f.get('defaulted'): return
    body = f.get('body')
    empty = not body or body == ['block', []] or body[0] == 'block' and not body[1]
    copy = f.get('copymove') or any(re.sub(r'<.*', '', p[3].replace('const ', '')).strip(' &') == re.sub(r'<.*', '', r['q']) for p in f['params'])
    for x in r['fields']:
        if x[0] in inited or not SCALAR.match(x[3]): continue
        if not empty and any(n[0] in ('member', 'umember', 'dmember') and n[2] == x[0] for n in walk(body)): continue
        if x[0] == '' : continue
        k = '%s(%s) unset %s' % (f['q'], ','.join(y[3] for y in f['params']), x[0])
        if k not in seen:
            seen.add(k)
            R.bad(k, '%s: %s leaves its member "%s" unset' % (loc(f), sig(f), x[0]))
    R.ok()


if __name__ == '__main__':
    sys.exit(main('C34', check))
