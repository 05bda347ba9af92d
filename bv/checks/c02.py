"""C02: the module contains everything requested, exactly once, where its namespace says, and nothing else."""
import json, random
from ..core import Check
from ..scen import PRE, DPRE, scen, worlds, files_of, seeds, nworlds

SURF = r'''
import types as _ty
def sigs(f):
    """the overloads of f, as a sorted list of parameter lists and results"""
    d = f.__doc__ or ''
    n = f.__name__
    if 'Overloaded function.' in d[:400]: l = re.findall(r'^\d+\. %s(\(.*)$' % re.escape(n), d, re.M)
    else: l = re.findall(r'^%s(\(.*)$' % re.escape(n), d, re.M)[:1]
    # a class bound after the function shows under its C++ name
    l = [re.sub(r'(?<![\w:.])(?!std::)\w+(?:::\w+)+', lambda m: 'mod.' + m.group().replace('::', '.'), x) for x in l]
    return sorted(re.sub(r'0x[0-9a-f]+', '0x', x) for x in l)
def surface(root):
    out, seen = {}, {}
    def put(p, v):
        if p in out: out[p + '#again'] = v
        out[p] = v
    def cls(c, p):
        if id(c) in seen:
            put(p, 'alias of ' + seen[id(c)])
            return
        seen[id(c)] = p
        if hasattr(c, '__members__'):
            put(p, 'enum ' + ','.join('%s=%d' % (k, int(v)) for k, v in c.__members__.items()))
            return
        put(p, 'class ' + ','.join(b.__name__ for b in c.__bases__ if b.__name__ != 'pybind11_object'))
        for k in sorted(c.__dict__):
            if k.startswith('__') and k not in ('__init__', '__call__', '__add__', '__eq__', '__getitem__'): continue
            if k == 'assign': continue
            v = c.__dict__[k]
            if isinstance(v, type): cls(v, p + '.' + k)
            elif isinstance(v, property): put(p + '.' + k, 'property' + ('' if v.fset else ' ro'))
            elif callable(getattr(c, k)): put(p + '.' + k, ('static ' if isinstance(v, staticmethod) else '') + 'def ' + '; '.join(sigs(getattr(c, k))))
            else: put(p + '.' + k, 'value ' + type(getattr(c, k)).__name__)
    def mod(m, p):
        if id(m) in seen:
            put(p, 'alias of ' + seen[id(m)])
            return
        seen[id(m)] = p
        put(p, 'module')
        for k in sorted(m.__dict__):
            if k.startswith('__') and k.endswith('__'): continue
            v, q = m.__dict__[k], p + '.' + k if p else k
            if isinstance(v, _ty.ModuleType): mod(v, q)
            elif isinstance(v, type): cls(v, q)
            elif callable(v): put(q, 'def ' + '; '.join(sigs(v)))
            else: put(q, 'value ' + type(v).__name__)
    mod(root, '')
    return out
S = surface(M)
with open(JOURNAL + '.surface', 'w') as _f: json.dump(S, _f)
'''


class Items:
    """declarations that may come in any order, in any header, and the surface they have to give"""

    def __init__(self, r, n):
        self.r, self.items, self.want, self.k, self.impl = r, [], {'': 'module'}, 0, []
        self.ns = [[], ['a'], ['a', 'b'], ['ab'], ['b'], ['a', 'b', 'c']]
        self.over = {}
        for _ in range(n): r.choice([self.fn, self.fn, self.fn, self.cls, self.enum, self.redecl, self.tmplfn])()
        for (p, n), s in self.over.items(): self.want['.'.join(p + [n]) if p else n] = 'def ' + '; '.join(sorted(s))

    def u(self):
        self.k += 1
        return self.k

    def place(self):
        p = self.r.choice(self.ns)
        for i in range(1, len(p) + 1): self.want['.'.join(p[:i])] = 'module'
        return p

    P = [('int', 'int'), ('double', 'float'), ('const std::string &', 'str'), ('bool', 'bool'), ('base::T &', 'mod.base.T'), ('base::E', 'mod.base.E'), ('std::shared_ptr<base::T>', 'mod.base.T')]

    def sig(self, named=True):
        ps = [(self.r.choice(self.P), f'p{i}') for i in range(self.r.choice([0, 1, 1, 2, 3]))]
        py = '(' + ', '.join(f'{n}: {t[1]}' for t, n in ps)
        return ', '.join(f'{t[0]} {n}' for t, n in ps), py, tuple(t[1] for t, n in ps)

    def fn(self, redecl=False):
        r = self.r
        keys = [k for k in self.over2()]
        if keys and r.random() < .45: p, name = r.choice(keys)
        else: p, name = self.place(), f'fn{self.u()}'
        p = list(p)
        have = self.sets.setdefault((tuple(p), name), set())
        for _ in range(20):
            cpp, py, key = self.sig()
            if key not in have: break
        else: return
        have.add(key)
        d = f'int {name}({cpp})'
        self.over_add(p, name, py + ') -> int')
        nre = r.choice([0, 0, 0, 1, 2, 3]) if not redecl else r.randint(1, 4)
        for _ in range(nre): self.items.append((p, d + ';'))
        if nre: self.impl.append(f'int {"::".join(p + [name])}({cpp}) {{ return {self.u()}; }}')
        else: self.items.append((p, f'inline {d} {{ return {self.u()}; }}'))

    sets = None

    def over2(self):
        if self.sets is None: self.sets = {}
        return sorted(self.sets)

    def over_add(self, p, name, s):
        key = '.'.join(p + [name]) if p else name
        cur = self.acc = getattr(self, 'acc', {})
        cur.setdefault(key, []).append(s)
        self.want[key] = 'def ' + '; '.join(sorted(cur[key]))

    def redecl(self): self.fn(True)

    def tmplfn(self):
        p, k = self.place(), self.u()
        q = '::'.join(p + [f'tf{k}']) if p else f'tf{k}'
        # declared, defined and instantiated at different places; the instantiating function keeps the order
        self.items.append((p, f'template <typename T> T tf{k}(T p0) {{ return p0; }} inline int use{k}(int p0) {{ return tf{k}<int>(p0) + static_cast<int>(tf{k}<double>(1.0)); }}'))
        self.over_add(p, f'tf{k}', '(p0: int) -> int')
        self.over_add(p, f'tf{k}', '(p0: float) -> float')
        self.over_add(p, f'use{k}', '(p0: int) -> int')

    def cls(self):
        p, k, r = self.place(), self.u(), self.r
        kw = r.choice(['struct', 'class'])
        n = f'C{k}'
        path = '.'.join(p + [n])
        for _ in range(r.choice([0, 0, 1, 2, 3])): self.items.append((p, f'{kw} {n};'))
        if r.random() < .3: self.items.append((p, f'{kw} {n}; typedef {n} Alias{k}; using Alias2_{k} = {n};'))
        b = ['public: int v = 1;']
        full = 'mod.' + path
        self.want[path] = 'class '
        self.want[path + '.v'] = 'property'
        ini = [f'(self: {full}) -> None', f'(self: {full}, arg0: {full}) -> None']
        over = {}
        for i in range(r.randint(0, 4)):
            m = r.choice(list(over)) if over and r.random() < .5 else f'm{self.u()}'
            st = over[m][0] if m in over else r.random() < .2
            cpp, py, key = self.sig()
            if m in over and key in [x[1] for x in over[m][1]]: continue
            over.setdefault(m, (st, []))[1].append((py, key))
            b.append(f'{"static " if st else ""}int {m}({cpp}){"" if st or r.random() < .5 else " const"} {{ return 1; }}')
        for m, (st, l) in over.items():
            self.want[path + '.' + m] = ('static ' if st else '') + 'def ' + '; '.join(sorted((py if st else '(self: ' + full + (', ' + py[1:] if py != '(' else '')) + ') -> int' for py, _ in l))
        if r.random() < .4:
            b.append(f'enum class In {{ i0, i1 = {k} }};')
            self.want[path + '.In'] = f'enum i0=0,i1={k}'
        if r.random() < .3:
            b.append('struct Nest { int w = 2; };')
            self.want[path + '.Nest'] = 'class '
            self.want[path + '.Nest.w'] = 'property'
            self.want[path + '.Nest.__init__'] = f'def (self: {full}.Nest) -> None'
        if r.random() < .5:
            b.append(f'private: int secret{k} = 1; void hidden{k}() {{}} protected: struct P{k} {{}};')
        self.want[path + '.__init__'] = 'def ' + f'(self: {full}) -> None'
        self.items.append((p, f'{kw} {n} {{ {" ".join(b)} }};'))
        if r.random() < .5: self.items.append((p, f'{kw} {n};'))

    def enum(self):
        p, k, r = self.place(), self.u(), self.r
        n = f'E{k}'
        sc = r.random() < .6
        for _ in range(r.choice([0, 0, 1])): self.items.append((p, f'enum {"class " if sc else ""}{n} : int;'))
        self.items.append((p, f'enum {"class " if sc else ""}{n} : int {{ x{k}, y{k} = {k + 5} }};'))
        path = '.'.join(p + [n])
        self.want[path] = f'enum x{k}=0,y{k}={k + 5}'
        if not sc:
            for v in ('x', 'y'): self.want['.'.join(p + [f'{v}{k}'])] = f'value {n}'

    def layout(self, r, nh):
        """the same declarations in another order, distributed over headers, namespaces opened again and again; definitions need their forward declarations in no particular order"""
        l = list(self.items)
        r.shuffle(l)
        hs = {}
        names = r.sample(['h1.hpp', 'x/h1.hpp', 'h2.h', 'b.hpp', 'x/y/z.hpp', 'mod.hpp'], nh)
        for i, n in enumerate(names):
            s = '#include <base.hpp>\n'
            part = l[i::nh]
            for p, t in part:
                if r.random() < .15: s += 'namespace a { namespace b { } } namespace ab { }\n'
                s += (' '.join(f'namespace {x} {{' for x in p) + ' ' + t + ' }' * len(p)) + '\n'
            hs[n] = s
        hs['base.hpp'] = 'namespace base { struct T { int v = 1; }; enum class E { e0, e1 }; }\n'
        fs = files_of(hs)
        order = names[:]
        r.shuffle(order)
        fs['main.hpp'] = ''.join(f'#include <{n}>\n' for n in order)
        if r.random() < .3: fs['main.hpp'] += ''.join(f'#include <{n}>\n' for n in order)
        fs['impl.cpp'] = '#include <main.hpp>\n#include <base.hpp>\n' + '\n'.join(self.impl) + '\n'
        return fs


BASE = {'base': 'module', 'base.T': 'class ', 'base.T.v': 'property', 'base.T.__init__': 'def (self: mod.base.T) -> None', 'base.E': 'enum e0=0,e1=1'}


def shuffled(seed, rounds):
    def run(ctx):
        r = random.Random(f'shuffled-{seed}')
        it = Items(r, r.randint(8, 22))
        want = {**BASE, **it.want}
        for k in range(rounds):
            wd, sub = ctx.wd, ctx.wd / f'r{k}'
            sub.mkdir()
            ctx.wd = sub
            try:
                drv = DPRE + SURF
                if not ctx.project(it.layout(r, r.randint(1, 4)), drv, bind=[''], extra_src=['impl.cpp'], args=r.choice([(), ('--max-file-size', '2000'), ('--flat',)])): return
                try: got = json.load(open(sub / 'driver.journal.surface'))
                except OSError: got = {}
                for q in sorted(set(want) | set(got)):
                    ctx.ok(got.get(q) == want.get(q), f'layout {k}: {q}', lambda: f'expected {want.get(q)!r}, got {got.get(q)!r}')
                ctx.stat('layouts')
                ctx.stat('names_compared', len(want))
            finally: ctx.wd = wd
    return f'shuffled-{seed}', run


def surf(name, src, want, **kw):
    """hand-written project: the whole surface has to be this"""
    def run(ctx):
        if not ctx.project(files_of(src), DPRE + SURF, bind=list(kw.pop('bind', [''])) if 'bind' in kw or 'config' not in kw else None, **kw): return
        got = json.load(open(ctx.wd / 'driver.journal.surface'))
        w = {'': 'module'}
        for l in want.strip().split('\n'):
            l = l.strip()
            if not l: continue
            k, v = l.split(' = ', 1)
            w[k.strip()] = v.strip() + (' ' if v.strip() == 'class' else '')
        inits = {k for k in got if k.endswith('.__init__') and k not in w}
        for q in sorted((set(w) | set(got)) - inits): ctx.ok(got.get(q) == w.get(q), q or '<root>', lambda: f'expected {w.get(q)!r}, got {got.get(q)!r}')
    return name, run


CASES = [
    surf('using', '''
        namespace lib { struct T { int v = 1; int m(int p0) { return p0; } }; inline int f(int p0) { return p0; } enum class E { e0 }; namespace in { inline int g(T const &p0) { return p0.v; } } }
        namespace use { using lib::T; using lib::f; using namespace lib; typedef lib::T Td; using Al = lib::T; namespace lib2 = lib; inline int h(Td p0, Al &p1) { return 1; } using E = lib::E; inline E en(E p0) { return p0; } }
        namespace lib { inline int f(double p0) { return 2; } }
        using lib::in::g;
        ''', '''
        lib = module
        lib.T = class
        lib.T.v = property
        lib.T.m = def (self: mod.lib.T, p0: int) -> int
        lib.f = def (p0: float) -> int; (p0: int) -> int
        lib.E = enum e0=0
        lib.in = module
        lib.in.g = def (p0: mod.lib.T) -> int
        use = module
        use.h = def (p0: mod.lib.T, p1: mod.lib.T) -> int
        use.en = def (p0: mod.lib.E) -> mod.lib.E
        '''),
    surf('inline-namespace', '''
        namespace n { inline namespace v2 { struct T { int v = 1; }; inline int f(T const &p0) { return 1; } } namespace v1 { inline int f(int p0) { return 1; } } }
        namespace n { inline int g(T &p0, v2::T *p1) { return 1; } }
        ''', '''
        n = module
        n.T = class
        n.T.v = property
        n.f = def (p0: mod.n.T) -> int
        n.v1 = module
        n.v1.f = def (p0: int) -> int
        n.g = def (p0: mod.n.T, p1: mod.n.T) -> int
        '''),
    surf('redeclared', {'a.hpp': 'namespace n { class T; int f(T &p0); int f(int p0); int f(int p0); extern int g(double p0); class T; }', 'b.hpp': '#include <a.hpp>\nnamespace n { class T; class T { public: friend class Fr; friend int ff(T const &, int); int m(int p0); static int s(int p0); int v = 1; }; class T; int f(T &p0); }',
                       'c.hpp': '#include <b.hpp>\nnamespace n { int f(T &p0); inline int f(T &p0) { return 1; } inline int f(int p0) { return 2; } inline int g(double p0) { return 3; } inline int T::m(int p0) { return 4; } inline int T::s(int p0) { return 5; } int f(T &p0); inline int ff(T const &p0, int p1) { return 6; } int ff(T const &p0, int p1); class T; }'}, '''
        n = module
        n.T = class
        n.T.v = property
        n.T.m = def (self: mod.n.T, p0: int) -> int
        n.T.s = static def (p0: int) -> int
        n.f = def (p0: int) -> int; (p0: mod.n.T) -> int
        n.g = def (p0: float) -> int
        n.ff = def (p0: mod.n.T, p1: int) -> int
        '''),
    surf('pulled-in', '''
        namespace lib { struct Arg { int v = 1; }; struct Ret { int v = 1; }; struct Unused { int v = 1; }; struct BaseOf { int b = 1; }; enum class En { n0 }; struct Deep { int v = 1; }; struct Mid { int m(Deep const &p0) { return 1; } }; inline int not_requested(Arg &p0) { return 1; } }
        namespace api { inline lib::Ret f(lib::Arg const &p0, lib::En p1) { return lib::Ret(); } struct D : lib::BaseOf { int m(lib::Mid *p0) { return 1; } }; }
        ''', '''
        lib = module
        lib.Arg = class
        lib.Arg.v = property
        lib.Ret = class
        lib.Ret.v = property
        lib.BaseOf = class
        lib.BaseOf.b = property
        lib.En = enum n0=0
        lib.Deep = class
        lib.Deep.v = property
        lib.Mid = class
        lib.Mid.m = def (self: mod.lib.Mid, p0: mod.lib.Deep) -> int
        api = module
        api.f = def (p0: mod.lib.Arg, p1: mod.lib.En) -> mod.lib.Ret
        api.D = class BaseOf
        api.D.m = def (self: mod.api.D, p0: mod.lib.Mid) -> int
        ''', bind=['api']),
    surf('same-names', '''
        struct X { int r = 1; }; inline int fn(X const &p0) { return 1; } enum class E { z };
        namespace a { struct X { int a = 1; struct X2 { int i = 1; }; }; inline int fn(X const &p0, ::X const &p1) { return 1; } enum class E { y }; namespace a { struct X { int aa = 1; }; inline int fn(X p0, a::X p1, ::a::X p2) { return 1; } } }
        namespace mod { inline int fn(int p0) { return 1; } struct mod { int v = 1; int mod_(int p0) { return 1; } }; namespace a { inline int fn(::a::X p0) { return 1; } } }
        ''', '''
        X = class
        X.r = property
        fn = def (p0: mod.X) -> int
        E = enum z=0
        a = module
        a.X = class
        a.X.a = property
        a.X.X2 = class
        a.X.X2.i = property
        a.fn = def (p0: mod.a.X, p1: mod.X) -> int
        a.E = enum y=0
        a.a = module
        a.a.X = class
        a.a.X.aa = property
        a.a.fn = def (p0: mod.a.a.X, p1: mod.a.a.X, p2: mod.a.X) -> int
        mod = module
        mod.fn = def (p0: int) -> int
        mod.mod = class
        mod.mod.v = property
        mod.mod.mod_ = def (self: mod.mod.mod, p0: int) -> int
        mod.a = module
        mod.a.fn = def (p0: mod.a.X) -> int
        '''),
    surf('templates-once', '''
        namespace t { template <typename T> struct Box { T v{}; T get() const { return v; } int size(Box const &p0) const { return 1; } }; template <typename T> int tf(T p0) { return 1; }
        inline Box<int> f(Box<int> p0, Box<double> p1) { return p0; } inline Box<int> g(Box<int> p0) { tf<int>(1); tf(2); tf(1.5); return p0; } inline int h(Box<int> *p0) { return 1; } }
        namespace u { inline t::Box<int> k(t::Box<int> const &p0) { t::tf<int>(4); return p0; } }
        ''', '''
        t = module
        t.Box_int_t = class
        t.Box_int_t.v = property
        t.Box_int_t.get = def (self: mod.t.Box_int_t) -> int
        t.Box_int_t.size = def (self: mod.t.Box_int_t, p0: mod.t.Box_int_t) -> int
        t.Box_double_t = class
        t.Box_double_t.v = property
        t.Box_double_t.get = def (self: mod.t.Box_double_t) -> float
        t.Box_double_t.size = def (self: mod.t.Box_double_t, p0: mod.t.Box_double_t) -> int
        t.tf = def (p0: float) -> int; (p0: int) -> int
        t.f = def (p0: mod.t.Box_int_t, p1: mod.t.Box_double_t) -> mod.t.Box_int_t
        t.g = def (p0: mod.t.Box_int_t) -> mod.t.Box_int_t
        t.h = def (p0: mod.t.Box_int_t) -> int
        u = module
        u.k = def (p0: mod.t.Box_int_t) -> mod.t.Box_int_t
        '''),
    surf('extern-c', '''
        extern "C" { inline int cf(int p0) { return 1; } struct CS { int v; }; enum CE { ce0, ce1 = 4 }; }
        namespace n { extern "C" { inline int cg(int p0) { return 1; } } extern "C++" { inline int cpp(CS const &p0) { return 1; } } }
        ''', '''
        cf = def (p0: int) -> int
        CS = class
        CS.v = property
        CE = enum ce0=0,ce1=4
        ce0 = value CE
        ce1 = value CE
        n = module
        n.cg = def (p0: int) -> int
        n.cpp = def (p0: mod.CS) -> int
        '''),
    surf('member-kinds', '''
        namespace k { struct B { int base(int p0) { return 1; } int over(int p0) { return 1; } int v = 0; }; struct D : B { using B::over; int over(double p0) { return 1; } int over(const std::string &p0) const { return 2; } static int st(int p0) { return 1; } static int st(double p0) { return 1; } int operator()(int p0) { return 1; } D operator+(D const &p0) const { return *this; } bool operator==(D const &p0) const { return true; } int operator[](int p0) const { return 1; } template <typename T> int tm(T p0) { return 1; } int use() { return tm(1) + tm(2.0) + tm(3); } const int ro = 1; static const int sc = 2; mutable int mu = 3; struct In { enum Deep { d0, d1 }; int x = 1; struct In2 { int y = 1; }; }; enum Un { u0 }; typedef int Td; D() {} D(int p0) {} D(int p0, double p1) {} ~D() {} }; }
        ''', '''
        k = module
        k.B = class
        k.B.base = def (self: mod.k.B, p0: int) -> int
        k.B.over = def (self: mod.k.B, p0: int) -> int
        k.B.v = property
        k.D = class B
        k.D.over = def (self: mod.k.D, p0: float) -> int; (self: mod.k.D, p0: int) -> int; (self: mod.k.D, p0: str) -> int
        k.D.st = static def (p0: float) -> int; (p0: int) -> int
        k.D.__call__ = def (self: mod.k.D, p0: int) -> int
        k.D.__add__ = def (self: mod.k.D, p0: mod.k.D) -> mod.k.D
        k.D.__eq__ = def (self: mod.k.D, p0: mod.k.D) -> bool
        k.D.__getitem__ = def (self: mod.k.D, p0: int) -> int
        k.D.tm = def (self: mod.k.D, p0: float) -> int; (self: mod.k.D, p0: int) -> int
        k.D.use = def (self: mod.k.D) -> int
        k.D.ro = property ro
        k.D.mu = property
        k.D.In = class
        k.D.In.Deep = enum d0=0,d1=1
        k.D.In.d0 = value Deep
        k.D.In.d1 = value Deep
        k.D.In.x = property
        k.D.In.In2 = class
        k.D.In.In2.y = property
        k.D.Un = enum u0=0
        k.D.u0 = value Un
        k.D.__init__ = def (self: mod.k.D) -> None; (self: mod.k.D, arg0: mod.k.D) -> None; (self: mod.k.D, p0: int) -> None; (self: mod.k.D, p0: int, p1: float) -> None
        '''),
]


def cases(check, rng, tier):
    return CASES + [shuffled(s, 2 if tier == 'quick' else 6) for s in seeds(rng, nworlds(tier, 10, 120))] + worlds('world', seeds(rng, nworlds(tier, 8, 120)))


CHECK = Check('C02', 'exploration', 'differential monitor: the complete surface of the imported module (names, kinds, overload signatures, enum values) against the model of the project, over permuted declaration orders and header layouts',
              'one observation per module, class, member, function, overload count or enum compared; non-trivial = distinct (case, name)', cases,
              assumptions=['special members that pybind11 adds to every class are not part of the surface'])
