"""C28: no template is dead on arrival: what its body calls, constructs and accesses exists in the form used."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import tu, wit
from ir import loc, sig, nodes, arity_ok, has_pack
from check import main

# members the compiler or the base of every class provides
IMPLICIT = {'operator='}


def bare(q):
    """class name without template arguments"""
    out, d = [], 0
    for c in q:
        if c == '<': d += 1
        elif c == '>': d -= 1
        elif d == 0: out.append(c)
    return ''.join(out)


def cut(ty):
    """(class name, const, pointer) of a type string naming a class template specialisation or class directly; None for anything else"""
    t = ty.strip()
    ptr = False
    const = False
    while True:
        if t.endswith('&'): t = t[:-1].strip(); continue
        if t.endswith('*'): t = t[:-1].strip(); ptr = True; const = False; continue
        if t.endswith('*const'): t = t[:-6].strip(); ptr = True; const = False; continue
        if t.startswith('const '): t = t[6:]; const = True; continue
        if t.endswith(' const'): t = t[:-6]; const = True; continue
        break
    if t.startswith('typename ') or not t.startswith('sprout::'):
        return None
    # one outermost template argument list, at the very end
    d = 0
    for i, c in enumerate(t):
        if c == '<': d += 1
        elif c == '>':
            d -= 1
            if d == 0 and i != len(t) - 1:
                return None
    return (bare(t), const, ptr)


class Classes:
    def __init__(self, U):
        self.U = U
        self.recs = {}
        self.meth = {}
        self.stat = {}
        for r in U.recs:
            self.recs.setdefault(bare(r['q']), []).append(r)
        for f in U.fns:
            if f.get('clsq') and not f.get('inst'):
                self.meth.setdefault(bare(f['clsq']), {}).setdefault(f['name'] if f['kind'] != 'ctor' else '<ctor>', []).append(f)
        for v in U.vars:
            if v.get('clsq'):
                self.stat.setdefault(bare(v['clsq']), set()).add(v['name'])
        self.memo = {}
        self.usings = {}
        for d in U.using.values():
            self.usings.setdefault(bare(d['q'].rsplit('::', 1)[0]), set()).add(d['name'])

    def members(self, c, depth=0):
        """(open, {name: [methods] or None}) over the primary template and all specialisations; open: a base is unknown"""
        if c in self.memo: return self.memo[c]
        if c not in self.recs or depth > 12: return (True, {})
        self.memo[c] = (True, {})
        op, m = False, {}
        defined = False
        for r in self.recs[c]:
            if 'fields' not in r: continue
            defined = True
            for x in r['fields']: m[x[0]] = None
            for x in r.get('types', ()): m[x[0]] = None
            for b in r.get('bases', ()):
                k = cut(b[1])
                if k is None: op = True; continue
                o, bm = self.members(k[0], depth + 1)
                op = op or o
                for n, v in bm.items():
                    m.setdefault(n, v) if n not in m or m[n] is None or v is None else m[n].extend(v)
        for n, fs in self.meth.get(c, {}).items():
            if n in m and m[n] is None: continue
            m[n] = (m.get(n) or []) + fs
        for n in self.stat.get(c, ()): m[n] = None
        for n in self.usings.get(c, ()): m[n] = None
        for q in self.recs:
            if q.startswith(c + '::') and '::' not in q[len(c) + 2:]: m[q[len(c) + 2:]] = None
        if not defined: op = True
        self.memo[c] = (op, m)
        return self.memo[c]


def check(R, tier):
    R.rule('In every template body that names something depending on a template parameter only through its arguments: a call of a library function by name has a declared overload that takes that number of '
           'arguments; an unqualified call names a function that is declared somewhere; a member of an object whose class template is written out is declared in that class (or a base), takes that number of '
           'arguments, and a const object is only asked for const members; a constructed library class has a constructor, or members to aggregate-initialise, for that number of arguments.')
    R.rule('Every use in tables/witness.txt (a public function, class or member template with archetype arguments) type-checks with all it instantiates.')
    R.assume += ['Specialisations are merged: a member of any of them is accepted.', 'Argument types of dependent calls are not compared, only their number.']
    units = ('portable17', 'portable11', 'pointer17', 'plain17') if tier == 'quick' else ('portable17', 'portable11', 'portable14', 'gcc17', 'gcc11', 'pointer17', 'pointer11', 'plain17', 'plain11')
    done = set()
    for un in units:
        U = tu.header_units((un,))[un]
        unit(R, U, done)
    for std in ('c++17',) if tier == 'quick' else ('c++17', 'c++11', 'c++14'):
        witnesses(R, std)
    R.floor('witnesses', 9000)
    R.floor('calls by name', 6000)
    R.floor('member accesses', 2500)
    R.floor('constructions', 900)


def witnesses(R, std):
    """each tabulated use of a public template, with archetype arguments, still type-checks with everything it instantiates"""
    W = [l.rstrip('\n').split(' ', 1) for l in open(tu.VERIF + '/tables/witness.txt')]
    res = wit.typecheck([(k, t) for k, t in W], std=std)
    told = set()
    for (k, t), r in zip(W, res):
        R.count('witnesses')
        r = [x for x in r if 'error: ' in x]
        if not r:
            R.ok(); continue
        for x in r[:1]:
            key = 'witness ' + re.sub(r'^(\S+?):\d+: ', r'\1: ', x)
            if key in told: continue
            told.add(key)
            R.bad(key, '%s (%s; instantiated by %s)' % (x, std, {'f': 'the call ', 'c': 'the class ', 'm': 'the member use '}[k] + t))
    for x in wit.typecheck.loose:
        if 'error: ' in x:
            R.bad('witness ' + re.sub(r'^(\S+?):\d+: ', r'\1: ', x), '%s (%s; in a template instantiated by a witness)' % (x, std))


def unit(R, U, done):
    C = Classes(U)
    names = {}
    for d in U.byid.values():
        if d.get('t') in ('fn', 'xfn'):
            names.setdefault(d['q'].split('::')[-1], []).append(d)
    usn = {d['name'] for d in U.using.values()}
    for f in U.fns:
        if f.get('inst'): continue
        if 'body' not in f and not f.get('inits'): continue
        where = '%s: %s' % (loc(f), sig(f))
        fk = '%s(%s)' % (f['q'], ','.join(p[3] for p in f['params']))
        ptypes = {p[1]: p[3] for p in f['params']}
        locs = {}

        def bad(key, msg, line):
            k = fk + ' ' + key
            if k in done: return
            done.add(k)
            R.bad(k, '%s:%s: %s: %s' % (f['file'], line or f['line'], sig(f), msg))

        def type_of(e):
            k = e[0]
            if k == 'parm': return ptypes.get(e[1])
            if k == 'local': return locs.get(e[1])
            if k == 'uctor': return e[2]
            if k == 'this': return None
            if k == 'member' and e[1] and e[1][0] == 'this':
                d = U.byid.get(e[4])
                if d and d.get('cty'):
                    t = d['cty']
                    if f.get('const') and not t.endswith('&') and not t.endswith('*'): t = 'const ' + t
                    return t
            return None

        seen_call = set()
        for n in nodes(f):
            k = n[0]
            if k == 'decl':
                for v in n[1]:
                    if isinstance(v, list) and len(v) > 4 and isinstance(v[0], str): pass
            if k == 'call':
                c, args = n[1], n[2]
                if not isinstance(c, list) or not c: continue
                if c[0] == 'lookup':
                    R.count('calls by name')
                    cs = [U.byid[i] for i in c[2] if i in U.byid]
                    ok = [d for d in cs if d['t'] not in ('fn', 'xfn') or arity_ok(d, len(args), has_pack(args))]
                    if not ok and c[3]:
                        nm = c[1].split('::')[-1]
                        ok = [d for d in names.get(nm, ()) if arity_ok(d, len(args), has_pack(args))] or ([1] if nm in usn else [])
                    if not ok and c[2] and not cs: ok = [1]
                    if not ok:
                        bad('call %s/%d' % (c[1], len(args)), ('calls %s with %d arguments, but no overload takes that many' if cs or names.get(c[1].split('::')[-1]) else 'calls %s (%d arguments), which is not declared')
                            % (c[1], len(args)), n[3])
                    else: R.ok()
                    continue
                if c[0] in ('dmember', 'umember', 'member'):
                    seen_call.add(id(c))
                    access(R, U, C, f, c, args, type_of, bad)
                if c[0] == 'dsref':
                    seen_call.add(id(c))
                    static(R, C, c, args, bad)
            elif k in ('dmember',) and id(n) not in seen_call:
                access(R, U, C, f, n, None, type_of, bad)
            elif k == 'dsref' and id(n) not in seen_call:
                static(R, C, n, None, bad)
            elif k == 'uctor':
                k2 = cut(n[2])
                if k2 is None or k2[2]: continue
                construct(R, C, k2[0], n[3], bad, n[5] if len(n) > 5 else 0)
        for i in f.get('inits', ()):
            if i[0] == 'b' and i[3] and i[3][0] == 'plist':
                k2 = cut(str(i[1]))
                if k2: construct(R, C, k2[0], i[3][1], bad, f['line'])


def access(R, U, C, f, n, args, type_of, bad):
    base, name = n[1], n[2]
    if not isinstance(base, list) or not base: return
    line = n[-1] if isinstance(n[-1], int) else 0
    if base[0] == 'this':
        if n[0] not in ('umember', 'member') or args is None: return
        ids = n[4] if n[0] == 'umember' else [n[4]]
        cs = [U.byid[i] for i in ids if i in U.byid and U.byid[i]['t'] == 'fn']
        if not cs or len(cs) != len(ids): return
        R.count('member accesses')
        ok = [d for d in cs if arity_ok(d, len(args), has_pack(args))]
        if not ok:
            bad('member %s/%d' % (name, len(args)), 'calls its member %s with %d arguments, but no overload takes that many' % (name, len(args)), line); return
        if f.get('const') and not any(d.get('const') or d.get('static') or d['kind'] == 'ctor' for d in ok):
            bad('const %s' % name, 'calls its non-const member %s although it is const' % name, line); return
        R.ok(); return
    t = type_of(base)
    if not t: return
    k = cut(t)
    if k is None: return
    cls, const, ptr = k
    if ptr != bool(n[3]): return
    if n[0] == 'dmember' and n[5]:
        return
    op, m = C.members(cls)
    if name in IMPLICIT or name.startswith('~'): return
    if name not in m:
        if op or cls not in C.recs: return
        R.count('member accesses')
        bad('member %s::%s' % (cls, name), 'uses member "%s" of %s, which has none' % (name, cls), line); return
    R.count('member accesses')
    if args is not None and m[name] is not None and not op:
        ok = [d for d in m[name] if arity_ok(d, len(args), has_pack(args))]
        if not ok:
            bad('member %s::%s/%d' % (cls, name, len(args)), 'calls %s::%s with %d arguments, but no overload takes that many' % (cls, name, len(args)), line); return
        if const and not any(d.get('const') or d.get('static') for d in ok):
            bad('const %s::%s' % (cls, name), 'calls the non-const member %s of a const %s' % (name, cls), line); return
    R.ok()


def static(R, C, n, args, bad):
    t = n[1]
    if t.endswith('::'): t = t[:-2]
    k = cut(t)
    if k is None: return
    op, m = C.members(k[0])
    name = n[2]
    line = n[-1] if isinstance(n[-1], int) else 0
    if op or k[0] not in C.recs or name.startswith('operator'): return
    R.count('member accesses')
    if name not in m:
        bad('static %s::%s' % (k[0], name), 'uses %s::%s, which is not declared' % (k[0], name), line); return
    if args is not None and m[name] is not None:
        if not any(arity_ok(d, len(args), has_pack(args)) for d in m[name]):
            bad('static %s::%s/%d' % (k[0], name, len(args)), 'calls %s::%s with %d arguments, but no overload takes that many' % (k[0], name, len(args)), line); return
    R.ok()


def construct(R, C, cls, args, bad, line):
    rs = C.recs.get(cls)
    if not rs or not any('fields' in r for r in rs): return
    R.count('constructions')
    n = len(args)
    if n <= 1 or has_pack(args) or len(args) == 1 and args[0][0] in ('ilist', 'plist'):
        # copy, move and conversions are not told apart here
        if n == 0:
            pass
        R.ok(); return
    ct = C.meth.get(cls, {}).get('<ctor>', [])
    if any(arity_ok(d, n) and not d.get('deleted') for d in ct): R.ok(); return
    if '<ctor>' in C.meth.get(cls, {}) and not any(b for r in rs for b in r.get('bases', ()) if not cut(b[1])):
        # inherited constructors
        for r in rs:
            for b in r.get('bases', ()):
                for d in C.meth.get(cut(b[1])[0], {}).get('<ctor>', []):
                    if arity_ok(d, n): R.ok(); return
        bad('ctor %s/%d' % (cls, n), 'constructs %s from %d arguments, but no constructor takes that many' % (cls, n), line); return
    if not ct:
        for r in rs:
            if 'fields' in r and (len(r['fields']) + len(r.get('bases', ())) >= n or any('[' in x[3] for x in r['fields'])): R.ok(); return
            for b in r.get('bases', ()):
                if not cut(b[1]): R.ok(); return
                for d in C.meth.get(cut(b[1])[0], {}).get('<ctor>', []):
                    if arity_ok(d, n): R.ok(); return
        bad('ctor %s/%d' % (cls, n), 'constructs %s from %d values, more than it has members' % (cls, n), line); return
    R.ok()


if __name__ == '__main__':
    sys.exit(main('C28', check))
