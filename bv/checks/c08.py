"""C08: the Python class hierarchy is the public C++ hierarchy, whatever the order of declarations."""
import random
from ..core import Check
from ..scen import scen, worlds, seeds, nworlds, DPRE

BASES = r'''
namespace z { struct First { int first = 1; int f() { vt::ev("First::f"); return 1; } static int s() { return 11; } virtual ~First() {} }; }
namespace a { struct Second { double pad = 0; int second = 2; int g() { vt::ev("Second::g"); return 2; } virtual ~Second() {} }; }
struct One : z::First { int one = 3; };
struct Two : z::First, a::Second { int two = 4; };
struct Three : Two { int three = 5; int g() { vt::ev("Three::g"); return 33; } };
class Priv : z::First { public: int p = 6; };
class Prot : protected z::First { public: int p = 7; };
class Mixed : public a::Second, private z::First { public: int p = 8; };
struct Plain { int plain = 9; };
struct FromPlain : Plain { int fp = 10; };
struct VBase { int vb = 11; virtual ~VBase() {} virtual int vf() { return vb; } };
struct VL : virtual VBase { int vl = 12; }; struct VR : virtual VBase { int vr = 13; }; struct VD : VL, VR { int vd = 14; };
template <typename T> struct Tb { T t; Tb() : t() {} T get() const { return t; } void set(T v) { t = v; } virtual ~Tb() {} };
struct FromT : Tb<int> { int ft = 15; }; struct FromTs : Tb<std::string> { int fts = 16; };
template <typename T> struct Td : Tb<T> { int td = 17; }; inline Td<double> mktd() { return Td<double>(); }
template <typename T> struct Crtp { int crtp = 18; int call() { return static_cast<T *>(this)->impl(); } }; struct CrtpD : Crtp<CrtpD> { int impl() { return 19; } };
template <typename T> struct Wrap : T { int wrap = 20; }; inline Wrap<Plain> mkw() { return Wrap<Plain>(); } inline Wrap<Three> mkw3() { return Wrap<Three>(); }
struct Shared : std::enable_shared_from_this<Shared> { int sh = 21; virtual ~Shared() {} }; struct SharedD : Shared { int shd = 22; };
struct StrD : std::string { int sd = 23; };
typedef Three Alias; struct FromAlias : Alias { int fa = 24; }; using Alias2 = Tb<int>; struct FromAlias2 : Alias2 { int fb = 25; };
class Late : z::First, public a::Second { public: int l = 28; }; struct NewV : Plain { virtual ~NewV() {} virtual int nv() { return 29; } }; struct NewVD : NewV { int x = 1; };
struct D1 : Plain { }; struct D2 : D1 { }; struct D3 : D2 { }; struct D4 : D3 { }; struct D5 : D4 { int five = 26; }; struct D6 final : D5 { int six = 27; };
inline unsigned long as_first(z::First const &x) { return (unsigned long)&x; } inline unsigned long as_second(a::Second const &x) { return (unsigned long)&x; } inline int sec_val(a::Second const &x) { return x.second; } inline int sec_ptr(a::Second *x) { return x ? x->second : -1; } inline int sec_sp(std::shared_ptr<a::Second> x) { return x->second; } inline int sec_by_val(a::Second x) { return x.second; } inline long diff(Two const &t) { return (char *)static_cast<a::Second const *>(&t) - (char *)static_cast<z::First const *>(&t); }
inline int vb_val(VBase const &x) { return x.vb; } inline int plain_val(Plain const &x) { return x.plain; } inline int tb_val(Tb<int> const &x) { return x.get(); } inline int sh_val(std::shared_ptr<Shared> x) { return x->sh; }
inline a::Second *mk_second(int k) { if( k == 0 ) return new a::Second; if( k == 1 ) return new Two; return new Three; } inline std::shared_ptr<z::First> sp_first(int k) { if( k == 0 ) return std::make_shared<z::First>(); if( k == 1 ) return std::make_shared<One>(); return std::make_shared<Three>(); }
inline Plain *mk_plain() { return new FromPlain; }
'''
BASES_D = r'''
F, S, m = M.z.First, M.a.Second, M
def b(k): return [x.__name__ for x in k.__bases__]
O = ['pybind11_object']
for k, want in [(F, O), (S, O), (m.One, ['First']), (m.Two, ['First', 'Second']), (m.Three, ['Two']), (m.Priv, O), (m.Prot, O), (m.Mixed, ['Second']), (m.FromPlain, ['Plain']), (m.VL, ['VBase']), (m.VR, ['VBase']), (m.VD, ['VL', 'VR']), (m.FromT, ['Tb_int_t']), (m.FromTs, ['Tb_std_string_t']), (m.Td_double_t, ['Tb_double_t']), (m.CrtpD, ['Crtp_CrtpD_t']), (m.Wrap_Plain_t, ['Plain']), (m.Wrap_Three_t, ['Three']), (m.Shared, O), (m.SharedD, ['Shared']), (m.StrD, O), (m.FromAlias, ['Three']), (m.FromAlias2, ['Tb_int_t']), (m.D1, ['Plain']), (m.D5, ['D4']), (m.D6, ['D5'])]:
    t(f'bases of {k.__name__}', lambda: b(k), ret=want)
t('bases are the bound classes themselves', lambda: (m.Two.__bases__ == (F, S), m.Three.__bases__[0] is m.Two, m.VD.__mro__[3] is m.VBase), ret=(True, True, True))
t('isinstance', lambda: (isinstance(m.Three(), F), isinstance(m.Three(), S), isinstance(m.Priv(), F), isinstance(m.Mixed(), F), isinstance(m.Mixed(), S), isinstance(m.D6(), m.Plain), isinstance(m.VD(), m.VBase)), ret=(True, True, False, False, True, True, True))
t('inherited fields', lambda: (lambda o: (o.first, o.second, o.two, o.three))(m.Three()), ret=(1, 2, 4, 5))
def wr():
    o = m.Three(); o.first, o.second, o.two = 101, 102, 103
    return (o.first, o.second, o.two, o.three, m.sec_val(o), m.sec_ptr(o), m.sec_sp(o), m.sec_by_val(o))
t('inherited fields are writable and the same storage', wr, ret=(101, 102, 103, 5, 102, 102, 102, 102))
t('inherited methods', lambda: (m.Three().f(), m.Two().g(), m.Three().g(), S.g(m.Three()), m.Three.s(), m.One().f()), ret=(1, 2, 33, 2, 11, 1), ev=['First::f()', 'Second::g()', 'Three::g()', 'Second::g()', 'First::f()'])
t('base subobject addresses', lambda: (lambda o: m.as_second(o) - m.as_first(o) == m.diff(o) and m.diff(o) > 0)(m.Three()), ret=True)
t('None', lambda: m.sec_ptr(None), ret=-1)
for k in ('Priv', 'Prot', 'Mixed'): t(f'{k} does not convert to its inaccessible base', lambda: m.as_first(getattr(m, k)()), exc='TypeError')
t('Mixed converts to its public base', lambda: m.sec_val(m.Mixed()), ret=2)
t('own fields of classes with hidden bases', lambda: (m.Priv().p, m.Prot().p, m.Mixed().p, hasattr(m.Priv(), 'first'), hasattr(m.Mixed(), 'first'), m.Mixed().second), ret=(6, 7, 8, False, False, 2))
t('single virtual base', lambda: (lambda o: (o.vb, o.vf(), setattr(o, 'vb', 5), m.vb_val(o), o.vl, o.vf()))(m.VL()), ret=(11, 11, None, 5, 12, 5))
t('base at an offset', lambda: (m.Late().second, m.sec_val(m.Late()), m.Late().g(), m.Late().l, m.NewV().plain, m.plain_val(m.NewV()), m.NewV().nv(), m.NewVD().plain, m.plain_val(m.NewVD())), ret=(2, 2, 2, 28, 9, 9, 29, 9, 9))
t('virtual inheritance', lambda: (lambda o: (o.vb, o.vl, o.vr, o.vd, setattr(o, 'vb', 111), m.vb_val(o), m.VL.vf(o), m.VR.vf(o)))(m.VD()), ret=(11, 12, 13, 14, None, 111, 111, 111))
t('template bases', lambda: (lambda o: (o.ft, o.get(), o.set(5), o.get(), o.t, m.tb_val(o)))(m.FromT()), ret=(15, 0, None, 5, 5, 5))
t('template base string', lambda: (lambda o: (o.set('x'), o.get(), o.fts))(m.FromTs()), ret=(None, 'x', 16))
t('template derived from template', lambda: (lambda o: (o.td, o.set(2.5), o.get()))(m.Td_double_t()), ret=(17, None, 2.5))
t('crtp', lambda: (m.CrtpD().crtp, m.CrtpD().call(), m.CrtpD().impl()), ret=(18, 19, 19))
t('wrapped', lambda: (m.Wrap_Plain_t().plain, m.Wrap_Plain_t().wrap, m.Wrap_Three_t().three, m.plain_val(m.Wrap_Plain_t()), m.sec_val(m.Wrap_Three_t())), ret=(9, 20, 5, 9, 2))
t('alias', lambda: (m.FromAlias().three, m.FromAlias().fa, m.FromAlias2().fb, m.tb_val(m.FromAlias2())), ret=(5, 24, 25, 0))
t('deep chain', lambda: (m.D6().plain, m.D6().five, m.D6().six, m.plain_val(m.D6()), len(m.D6.__mro__)), ret=(9, 26, 27, 9, 9))
t('enable_shared_from_this', lambda: (m.sh_val(m.SharedD()), m.SharedD().shd), ret=(21, 22))
t('results have their dynamic type', lambda: [type(m.mk_second(k)).__name__ for k in (0, 1, 2)], ret=['Second', 'Two', 'Three'])
t('results through shared_ptr', lambda: [(type(o).__name__, o.first) for o in map(m.sp_first, (0, 1, 2))], ret=[('First', 1), ('One', 1), ('Three', 1)])
t('not polymorphic', lambda: type(m.mk_plain()).__name__, ret='Plain')
t('derived object does not pass for unrelated', lambda: m.vb_val(m.Three()), exc='TypeError')
t('base object does not pass for derived', lambda: m.diff(F()), exc='TypeError')
class Py(m.Three):
    def f(self): return 77
t('python subclass', lambda: (Py().f(), Py().second, m.sec_val(Py()), isinstance(Py(), F)), ret=(77, 2, 2, True))
'''

NEST = r'''
template <typename T> struct Wrap : T { int w = 1; };
struct Base { int b = 2; }; struct Z { int z = 3; }; struct Outer { struct Inner : Base { int i = 4; struct Deep : Z { int d = 5; }; }; int o = 6; enum In { x = 1 }; };
struct D : Outer::Inner { int dd = 7; }; struct DD : Outer::Inner::Deep { int q = 8; struct E : D { int e = 9; }; }; struct Self { struct A { int a = 1; }; struct B : A { int b = 2; }; struct C : B { struct G : A { int g = 3; }; }; };
inline Wrap<Z> mk() { return Wrap<Z>(); } inline Wrap<D> mkd() { return Wrap<D>(); } inline Wrap<Outer::Inner> mki() { return Wrap<Outer::Inner>(); } inline int base(Base const &x) { return x.b; } inline int inner(Outer::Inner const &x) { return x.i; }
namespace n { struct Outer : ::Outer { struct Inner : ::Outer::Inner { int j = 10; }; struct Fwd; Fwd *p = nullptr; }; struct Outer::Fwd { int fwd = 11; }; struct Last : Outer::Inner, Outer::Fwd { int last = 12; }; }
'''
NEST_D = r'''
m = M
t('fields', lambda: (m.D().b, m.D().i, m.DD().z, m.DD.E().b, m.Outer.Inner().b, m.Outer.Inner.Deep().z, m.Self.B().a, m.Self.C.G().a, m.Self.C().b, m.Wrap_Z_t().z, m.Wrap_D_t().b), ret=(2, 4, 3, 2, 2, 3, 1, 1, 2, 3, 2))
t('bases', lambda: [k.__bases__[0] for k in (m.D, m.DD, m.DD.E, m.Outer.Inner, m.Outer.Inner.Deep, m.Self.B, m.Self.C.G, m.Wrap_D_t)] == [m.Outer.Inner, m.Outer.Inner.Deep, m.D, m.Base, m.Z, m.Self.A, m.Self.A, m.D], ret=True)
t('names', lambda: (names(m.Outer), names(m.Outer.Inner), names(m.DD), names(m.Self), names(m.Self.C)), ret=(['In', 'Inner', 'o', 'x'], ['Deep', 'i'], ['E', 'q'], ['A', 'B', 'C'], ['G']))
t('qualified names', lambda: [k.__qualname__ for k in (m.Outer.Inner.Deep, m.DD.E, m.Self.C.G)], ret=['Outer.Inner.Deep', 'DD.E', 'Self.C.G'])
t('conversions', lambda: (m.base(m.D()), m.base(m.DD.E()), m.inner(m.D()), m.base(m.n.Outer.Inner()), m.inner(m.n.Last())), ret=(2, 2, 4, 2, 4))
t('same names in another scope', lambda: (m.n.Outer.__bases__[0] is m.Outer, m.n.Outer.Inner.__bases__[0] is m.Outer.Inner, m.n.Outer.Inner().j, m.n.Outer.Fwd().fwd, m.n.Last().last, m.n.Last().fwd, m.n.Last().j), ret=(True, True, 10, 11, 12, 11, 10))
'''

SKIPD = r'''
t('skipped base', lambda: ([k.__name__ for k in M.n.D.__bases__], [k.__name__ for k in M.n.E.__bases__], M.n.D().d, M.n.E().e, hasattr(M.n, 'B')), ret=(['pybind11_object'], ['D', 'K'], 2, 3, False))
'''

LATE = r'''
struct Outer { struct Inner; int x = 1; };
struct Base { int b = 2; };
struct Outer::Inner : Base { int i = 3; };
'''
LATE_D = "t('class defined outside of its enclosing class', lambda: (M.Outer.Inner().b, M.Outer.Inner().i, M.Outer.Inner.__bases__[0] is M.Base), ret=(2, 3, True))\n"


class Hier:
    """random class hierarchies spread over namespaces and headers; the oracle is C++'s own conversions and member lookup"""

    def __init__(self, r):
        nns, nh, nc = r.randint(1, 6), r.randint(1, 4), r.randint(4, 14)
        nss = [''] + [f'{r.choice("zyxbca")}s{i}' for i in range(nns)]
        nss += [f'{r.choice(nss[1:])}::{r.choice("qrs")}' for _ in range(r.randint(0, 2))]
        self.c = []
        for i in range(nc):
            virt = r.random() < .4
            prev = self.c[:]
            bs = []
            if prev and r.random() < .75:
                for b in r.sample(prev, min(len(prev), r.choice([1, 1, 1, 2, 3]))):
                    if not any(self.anc(b['n']) & self.anc(x['n']) for x, _, _ in bs): bs.append((b, r.choice(['public'] * 6 + ['private', 'protected']), False))
            self.c.append({'n': f'C{i}', 'ns': r.choice(nss), 'b': bs, 'h': min(nh - 1, i * nh // nc), 'virt': virt, 'tmpl': r.random() < .2, 'nest': r.choice(prev) if prev and r.random() < .25 else None, 'pad': r.choice(['', 'double pad_{} = 0; ', 'char pad_{} = 1; ']), 'fwd': r.random() < .4})
        self.nh, self.r = nh, r

    def anc(self, n):
        c = next(x for x in self.c if x['n'] == n)
        s = {n}
        for b, _, _ in c['b']: s |= self.anc(b['n'])
        return s

    def q(self, c): return (c['ns'] + '::' if c['ns'] else '') + c['n'] + ('<int>' if c['tmpl'] else '')

    def py(self, c): return f'ns({c["ns"]!r}).{c["n"]}' + ('_int_t' if c['tmpl'] else '')

    def pub(self, c):
        """publicly accessible ancestors"""
        s = []
        for b, a, _ in c['b']:
            if a == 'public': s += [b] + self.pub(b)
        return s

    def files(self):
        fs = {}
        for h in range(self.nh):
            s = '#pragma once\n#include <vt/vt.hpp>\n#include <memory>\n' + (f'#include <h{h - 1}.hpp>\n' if h else '')
            mine = [c for c in self.c if c['h'] == h]
            wrap = lambda c, b: ''.join(f'namespace {p} {{ ' for p in c['ns'].split('::') if p) + b + ''.join(' }' for p in c['ns'].split('::') if p) + '\n'
            for c in mine:
                if c['fwd'] and not c['tmpl']: s += wrap(c, f'struct {c["n"]}; inline unsigned long ptr_{c["n"]}({c["n"]} *p) {{ return (unsigned long)p; }}')
            for c in mine:
                bs = ', '.join(f'{a} ::{self.q(b)}' for b, a, _ in c['b'])
                n = c['n']
                body = f'{c["pad"].format(n)}int f_{n} = {1000 + int(n[1:])}; int m_{n}() const {{ vt::ev("{n}", f_{n}); return f_{n}; }} '
                if c['virt']: body += f'virtual ~{n}() {{}} virtual int v_{n}() {{ return f_{n} + 1; }} '
                if c['nest']: body += f'struct In_{n} : ::{self.q(c["nest"])} {{ int in_{n} = 5; }}; '
                s += wrap(c, f'{"template <typename T> " if c["tmpl"] else ""}struct {n}{" : " + bs if bs else ""} {{ {body}}}; ' + (f'inline {n}<int> mk_{n}() {{ {"typename " if 0 else ""}{n}<int>{"::In_" + n + " i; (void)i; return " + n + "<int>()" if c["nest"] else " x; return x"}; }}' if c['tmpl'] else ''))
                s += f'inline unsigned long addr_{n}(::{self.q(c)} const &x) {{ return (unsigned long)&x; }} inline int get_{n}(::{self.q(c)} const *x) {{ return x->f_{n}; }} inline int sp_{n}(std::shared_ptr<::{self.q(c)}> x) {{ return x->f_{n}; }}\n'
                for b in self.pub(c): s += f'inline long off_{n}_{b["n"]}(::{self.q(c)} const &x) {{ return (char const *)static_cast<::{self.q(b)} const *>(&x) - (char const *)&x; }}\n'
            fs[f'h{h}.hpp'] = s
        hs = list(fs)
        self.r.shuffle(hs)
        fs['main.hpp'] = ''.join(f'#include <{h}>\n' for h in hs)
        return fs

    def driver(self):
        d = ''
        for c in self.c:
            n, k = c['n'], self.py(c)
            pb = [b for b, a, _ in c['b'] if a == 'public']
            d += f't("bases of {n}", lambda: list({k}.__bases__) == [{", ".join(self.py(b) for b in pb)}]' + (f', ret=True)\n' if pb else f' or [x.__name__ for x in {k}.__bases__], ret=["pybind11_object"])\n')
            d += f't("own {n}", lambda: (lambda o: (o.f_{n}, o.m_{n}(), M.get_{n}(o), M.sp_{n}(o)))({k}()), ret=({1000 + int(n[1:])},) * 4, ev=["{n}({1000 + int(n[1:])})"])\n'
            if c['fwd'] and not c['tmpl']: d += f't("forward declared {n}", lambda: (lambda o: {self.py(c).rsplit(".", 1)[0]}.ptr_{n}(o) == M.addr_{n}(o))({k}()), ret=True)\n'
            acc = {b['n'] for b in self.pub(c)}
            for b in self.c:
                if b is c: continue
                bn, bv = b['n'], 1000 + int(b['n'][1:])
                if bn in acc:
                    d += f't("{n} as {bn}", lambda: (lambda o: (issubclass({k}, {self.py(b)}), o.f_{bn}, setattr(o, "f_{bn}", 7), o.m_{bn}(), M.get_{bn}(o), M.sp_{bn}(o), M.addr_{bn}(o) - M.addr_{n}(o) - M.off_{n}_{bn}(o)))({k}()), ret=(True, {bv}, None, 7, 7, 7, 0), ev=["{bn}(7)"])\n'
                else: d += f't("{n} is no {bn}", lambda: issubclass({k}, {self.py(b)}), ret=False)\nt("{n} does not pass for {bn}", lambda: M.get_{bn}({k}()), exc="TypeError")\n'
            if c['nest'] and not c['tmpl']:
                x = c['nest']
                d += f't("nested class of {n}", lambda: (lambda o: (o.in_{n}, o.f_{x["n"]}, type(o).__bases__ == ({self.py(x)},), M.get_{x["n"]}(o)))({k}.In_{n}()), ret=(5, {1000 + int(x["n"][1:])}, True, {1000 + int(x["n"][1:])}))\n'
        return d


def hier(s):
    def run(ctx):
        r = random.Random(f'hier-{s}')
        h = Hier(r)
        ctx.project(h.files(), DPRE + h.driver(), bind=[''], args=['--max-file-size', str(r.choice([1, 500, 1500, 4000, 100000]))])
    return f'hierarchy-{s}', run


def cases(check, rng, tier):
    sk = 'namespace n { struct A { int a = 1; }; struct B : A { int b = 1; }; struct D : B { int d = 2; }; struct K { int k = 4; }; struct E : D, K { int e = 3; }; }\n'
    return [scen('bases', BASES, BASES_D), scen('nested', NEST, NEST_D), scen('skipped', sk, SKIPD, config='-class n::B\n'), scen('late-nested', LATE, LATE_D)] + [hier(s) for s in seeds(rng, nworlds(tier, 20, 250))] + \
        worlds('world', seeds(rng, nworlds(tier, 6, 80)), lambda s: [['virtual', 'nested'], ['nested', 'privbase']][s % 2], classes=lambda r: r.randint(5, 9), functions=2)


CHECK = Check('C08', 'exploration', 'import and introspection of generated modules, with C++ conversions (address of base subobjects, member values) as oracle for the Python ones',
              'one observation per (class, possible base): Python bases, conversion allowed or refused, address and storage shared; non-trivial = a distinct pair of classes in a distinct hierarchy and declaration order', cases,
              assumptions=['pybind11 2.11 and clang 14 of this sandbox'])
