"""C05: default arguments and keyword names."""
from ..core import Check
from ..scen import scen, worlds, seeds, nworlds

DEF = ['(11)', '2.5', 'std::string("three")', '"four"', '::n::E::y', '::n::K(6)', 'true', '8ul']
TYP = ['int', 'double', 'std::string', 'const char *', '::n::E', '::n::K const &', 'bool', 'unsigned long']
LOG = ['11', '2.5', "'three'", "'four'", 'e9', '6', 'true', '8']
ARG = ['-1', '-2.5', "'x'", "'y'", 'M.n.E.x', 'M.n.K(99)', 'False', '77']
ALOG = ['-1', '-2.5', "'x'", "'y'", 'e3', '99', 'false', '77']
HEAD = 'namespace n {\nenum class E { x = 3, y = 9 };\nstruct K { int v; K(int a) : v(a) {} };\n'


def params(n, d):
    """n parameters of which the last d have defaults"""
    return ', '.join(f'{TYP[i]} p{i}' + (f' = {DEF[i]}' if i >= n - d else '') for i in range(n))


def logs(n): return ''.join(f', p{i}' + ('.v' if i == 5 else '') for i in range(n))


def grid():
    """every (parameters, defaults) pair up to 8 for free, static, member, const member functions and constructors, plain and with virtual functions"""
    h, d = HEAD, 'n = M.n\nc, v, ne = n.C(), n.V(), n.Out.In()\n'
    free = mem = vmem = ''
    for n in range(0, 9):
        for k in range(0, n + 1):
            i = f'{n}_{k}'
            ps, ls = params(n, k), logs(n)
            free += f'inline int f{i}({ps}) {{ vt::ev("f{i}"{ls}); return {n * 10 + k}; }}\n'
            mem += f'int m{i}({ps}) {{ vt::ev("m{i}"{ls}); return {n * 10 + k}; }}\nint c{i}({ps}) const {{ vt::ev("c{i}"{ls}); return {n * 10 + k}; }}\nstatic int s{i}({ps}) {{ vt::ev("s{i}"{ls}); return {n * 10 + k}; }}\n'
            vmem += f'virtual int v{i}({ps}) {{ vt::ev("v{i}"{ls}); return {n * 10 + k}; }}\n'
            for kind, call in (('f', f'n.f{i}'), ('m', f'c.m{i}'), ('c', f'c.c{i}'), ('s', f'n.C.s{i}'), ('v', f'v.v{i}')):
                for given in range(n - k, n + 1):
                    ev = f'{kind}{i}({",".join(ALOG[:given] + LOG[given:n])})'
                    d += f't("{kind}{i} given {given}", lambda: {call}({", ".join(ARG[:given])}), ret={n * 10 + k}, ev=[{ev!r}])\n'
                    if given:
                        d += f't("{kind}{i} given {given} by name", lambda: {call}(**dict([{", ".join(f"({chr(34)}p{j}{chr(34)}, {ARG[j]})" for j in reversed(range(given)))}])), ret={n * 10 + k}, ev=[{ev!r}])\n'
                    if given > 1 and given == n: d += f't("{kind}{i} mixed", lambda: {call}({ARG[0]}, {", ".join(f"p{j}={ARG[j]}" for j in range(1, given))}), ret={n * 10 + k}, ev=[{ev!r}])\n'
                if n > k: d += f't("{kind}{i} one too few", lambda: {call}({", ".join(ARG[:n - k - 1])}), exc="TypeError", ev=[])\n'
                d += f't("{kind}{i} one too many", lambda: {call}({", ".join(ARG[:n] + ["0"])}), exc="TypeError", ev=[])\n'
                d += f't("{kind}{i} unknown name", lambda: {call}({", ".join(ARG[:max(0, n - 1)])}{", " if n > 1 else ""}pz=1), exc="TypeError", ev=[])\n'
                if kind in 'fm': d += f't("{kind}{i} overloads", lambda: overloads({call}), ret={k + 1})\n'
    h += free + f'struct C {{\n{mem}}};\nstruct V {{ virtual ~V() {{}}\n{vmem}}};\nstruct Out {{ struct In {{ int z = 0; }}; }};\n}}\n'
    return h, d


def ctors():
    h, d = HEAD, 'n = M.n\n'
    for n in range(1, 9):
        for k in range(0, n + 1):
            if n - k == 0 and k != n: continue
            i = f'{n}_{k}'
            ps, ls = params(n, k), logs(n)
            # one class without virtual functions, one with, one abstract: the constructor is the only difference
            h += f'struct C{i} {{ int r = 0; C{i}({ps}) {{ vt::ev("C{i}"{ls}); r = {n * 10 + k}; }} }};\n'
            h += f'struct V{i} {{ int r = 0; virtual ~V{i}() {{}} virtual int w() {{ return 1; }} V{i}({ps}) {{ vt::ev("V{i}"{ls}); r = {n * 10 + k}; }} }};\n'
            h += f'struct A{i} {{ int r = 0; virtual ~A{i}() {{}} virtual int w() = 0; A{i}({ps}) {{ vt::ev("A{i}"{ls}); r = {n * 10 + k}; }} }};\n'
            for kind in 'CVA':
                for given in range(n - k, n + 1):
                    ev = f'{kind}{i}({",".join(ALOG[:given] + LOG[given:n])})'
                    d += f't("{kind}{i} given {given}", lambda: n.{kind}{i}({", ".join(ARG[:given])}).r, ret={n * 10 + k}, ev=[{ev!r}])\n'
                    if given and (kind == 'C' or given == n): d += f't("{kind}{i} given {given} by name", lambda: n.{kind}{i}({", ".join(f"p{j}={ARG[j]}" for j in reversed(range(given)))}).r, ret={n * 10 + k}, ev=[{ev!r}])\n'
                if n > k: d += f't("{kind}{i} one too few", lambda: n.{kind}{i}({", ".join(ARG[:n - k - 1])}), exc="TypeError", ev=[])\n'
            d += f'class PA{i}(n.A{i}):\n    def __init__(self, *a): n.A{i}.__init__(self, *a)\n    def w(self): return 5\n'
            d += f't("python subclass of A{i}", lambda: PA{i}({", ".join(ARG[:n - k])}).r, ret={n * 10 + k})\n'
            d += f'class PV{i}(n.V{i}):\n    def __init__(self, *a): n.V{i}.__init__(self, *a)\n'
            d += f't("python subclass of V{i}", lambda: PV{i}({", ".join(ARG[:n - k])}).r, ret={n * 10 + k})\n'
    return h + '}\n', d


EXPR = r'''
#include <functional>
namespace lib { enum Plain { p0, p1 = 5 }; enum class Sc { q = 2 }; const int K = 31; static const std::string S = "ls"; inline int next() { static int i = 0; return ++i; } struct T { int v; T(int a = 7) : v(a) {} static int dflt() { return 44; } static const int C = 12; enum In { i0, i1 = 3 }; struct N { int q = 8; }; }; template <int I> struct V { int v = I; }; }
namespace app {
using namespace lib;
namespace deep { const int K = 32; inline int local(int a = K) { vt::ev("local", a); return 1; } }
inline int lit(int a = 0x10, long b = -5L, double c = 1e3, char d = ',', bool e = !false, const char *f = "a,b)\"q\"", unsigned g = ~0u) { vt::ev("lit", a, b, c, int(d), e, std::string(f), g); return 1; }
inline int names(int a = K, int b = deep::K, std::string const &c = S, int d = T::dflt(), int e = T::C) { vt::ev("names", a, b, c, d, e); return 2; }
inline int counter(int a = next()) { vt::ev("counter", a); return a; }
inline int enums(Plain a = p1, Sc b = Sc::q, T::In c = T::i1) { vt::ev("enums", a, b, c); return 3; }
inline int objs(T a = T(), T const &b = T(9), T const &c = 10, T *d = nullptr, std::shared_ptr<T> e = nullptr, T::N const &f = T::N(), V<5> const &g = V<5>()) { vt::ev("objs", a.v, b.v, c.v, d ? d->v : -1, e ? e->v : -1, f.q, g.v); return 4; }
inline int braces(std::string const &a = {}, T const &b = {}, int c = {}) { vt::ev("braces", a, b.v, c); return 5; }
inline int calc(int a, int b = 2 * (3 + 4), int c = sizeof(int) > 2 ? 6 : 7) { vt::ev("calc", a, b, c); return 6; }
struct W {
	static const int Z = 61; enum { anon = 62 }; int m = 0;
	W(int a = Z, int b = anon) { vt::ev("W", a, b); }
	int f(int a = Z, W const &b = W(1, 2)) const { vt::ev("W::f", a, b.m); return 7; }
	int f(std::string a, int b = 1) { vt::ev("W::f(string)", a, b); return 8; }
	W &chain(int a = 1) { m += a; return *this; }
	struct N { int g(int a = Z + 1) { vt::ev("N::g", a); return 9; } };
};
template <typename X> struct G { X x; G(X a = X(3)) : x(a) {} X h(X a = X(4), int b = 5) { vt::ev("h", a, b); return a; } };
inline G<int> mkg() { return G<int>(); } inline G<double> mkgd() { return G<double>(); }
template <typename X> X tf(X a, X b = X(6)) { vt::ev("tf", a, b); return a; }
template int tf<int>(int, int);
struct Bp { protected: int lifted(int a, int b = 70, int c = 71) { vt::ev("lifted", a, b, c); return 10; } };
struct Dp : Bp { using Bp::lifted; };
struct I { virtual ~I() {} virtual int vd(int a, int b = 80) = 0; virtual int ve(int a = 81) const { vt::ev("I::ve", a); return 11; } };
struct J : I { int vd(int a, int b = 82) override { vt::ev("J::vd", a, b); return 12; } };
inline int red(int a, int b = 90);
inline int red(int a, int b) { vt::ev("red", a, b); return 13; }
inline int opt(int a, int, int c = 3) { vt::ev("opt", a, c); return 14; }
inline int kw(int lambda, int from = 1, int None_ = 2, int is = 3) { vt::ev("kw", lambda, from, None_, is); return 15; }
inline int fn(int a, std::function<int(int)> f = nullptr) { vt::ev("fn", a, f ? f(a) : -1); return 16; }
inline int constp(const int a = 4, const double b = 2.5, const std::string c = "cc", const T d = T(13), const bool e = true, Plain const f = p1) { vt::ev("constp", a, b, c, d.v, e, f); return 17; }
inline T retv(int a = 1) { return T(a); } inline T *retp(int a = 2) { return new T(a); } inline std::shared_ptr<T> rets(int a = 3) { return std::make_shared<T>(a); } inline T const &retr(T const &a, int b = 4) { return a; } inline Plain rete(int a = 5) { return p1; } inline const T retc(int a = 6) { return T(a); } inline std::string retstr(int a = 7) { return "r"; } inline const lib::Sc retsc(int a = 8) { return lib::Sc::q; } inline void retvoid(int a = 9) { vt::ev("retvoid", a); } inline bool retb(int a = 10) { return a == 10; }
}
'''
EXPR_D = r'''
a, l = M.app, M.lib
t('lit', lambda: a.lit(), ret=1, ev=["lit(16,-5,1000,44,true,'a,b)\"q\"',4294967295)"])
t('lit 3', lambda: a.lit(1, 2, 3.5), ret=1, ev=["lit(1,2,3.5,44,true,'a,b)\"q\"',4294967295)"])
t('names', lambda: a.names(), ret=2, ev=["names(31,32,'ls',44,12)"])
t('names 2', lambda: a.names(1, 2), ret=2, ev=["names(1,2,'ls',44,12)"])
t('local', lambda: a.deep.local(), ret=1, ev=['local(32)'])
x = a.counter()
t('default is evaluated at each call', lambda: (a.counter() - x, a.counter() - x, a.counter(-7)), ret=(1, 2, -7))
t('enums', lambda: a.enums(), ret=3, ev=['enums(e5,e2,e3)'])
t('enums 1', lambda: a.enums(l.p0), ret=3, ev=['enums(e0,e2,e3)'])
t('objs', lambda: a.objs(), ret=4, ev=['objs(7,9,10,-1,-1,8,5)'])
t('objs 3', lambda: a.objs(l.T(1), l.T(2), l.T(3)), ret=4, ev=['objs(1,2,3,-1,-1,8,5)'])
t('objs 5', lambda: a.objs(l.T(1), l.T(2), l.T(3), l.T(4), l.T(5)), ret=4, ev=['objs(1,2,3,4,5,8,5)'])
t('braces', lambda: a.braces(), ret=5, ev=["braces('',7,0)"])
t('calc', lambda: (a.calc(1), a.calc(1, 2), a.calc(1, 2, 3)), ret=(6, 6, 6), ev=['calc(1,14,6)', 'calc(1,2,6)', 'calc(1,2,3)'])
w = a.W(0, 0)
t('W', lambda: [a.W(), a.W(5), a.W(5, 6), None][3], ret=None, ev=['W(61,62)', 'W(5,62)', 'W(5,6)'])
t('W::f', lambda: (w.f(), w.f(3)), ret=(7, 7), ev=['W(1,2)', 'W::f(61,0)', 'W(1,2)', 'W::f(3,0)'])
t('W::f(string)', lambda: (w.f('s'), w.f('s', 4)), ret=(8, 8), ev=["W::f(string)('s',1)", "W::f(string)('s',4)"])
t('chain', lambda: (w.chain(), w.chain(5), w.m)[2], ret=6)
t('N::g', lambda: a.W.N().g(), ret=9, ev=['N::g(62)'])
t('G', lambda: (a.G_int_t().x, a.G_int_t(8).x, a.G_double_t().x), ret=(3, 8, 3.0))
t('G::h', lambda: (a.G_int_t().h(), a.G_int_t().h(6), a.G_double_t().h(6.5, 7)), ret=(4, 6, 6.5), ev=['h(4,5)', 'h(6,5)', 'h(6.5,7)'])
t('tf', lambda: (a.tf(1), a.tf(1, 2)), ret=(1, 1), ev=['tf(1,6)', 'tf(1,2)'])
t('lifted', lambda: (a.Dp().lifted(1), a.Dp().lifted(1, 2), a.Dp().lifted(1, 2, 3), a.Dp().lifted(a=4, b=5)), ret=(10,) * 4, ev=['lifted(1,70,71)', 'lifted(1,2,71)', 'lifted(1,2,3)', 'lifted(4,5,71)'])
t('virtual default', lambda: (a.J().vd(1), a.J().vd(1, 2), a.I.vd(a.J(), 3), a.J().ve()), ret=(12, 12, 12, 11), ev=['J::vd(1,82)', 'J::vd(1,2)', 'J::vd(3,80)', 'I::ve(81)'])
t('redeclared', lambda: (a.red(1), a.red(1, 2), overloads(a.red)), ret=(13, 13, 2), ev=['red(1,90)', 'red(1,2)'])
t('unnamed parameter', lambda: (a.opt(1, 2), a.opt(1, 2, 4)), ret=(14, 14), ev=['opt(1,3)', 'opt(1,4)'])
t('keyword names', lambda: (a.kw(**{'lambda': 5}), a.kw(**{'is': 1, 'None_': 2, 'from': 3, 'lambda': 4})), ret=(15, 15), ev=['kw(5,1,2,3)', 'kw(4,3,2,1)'])
t('function object parameter', lambda: a.fn(3, lambda v: v + 1), ret=16, ev=['fn(3,4)'])
t('constp', lambda: (a.constp(), a.constp(1, 2., 'x')), ret=(17, 17), ev=["constp(4,2.5,'cc',13,true,e5)", "constp(1,2,'x',13,true,e5)"])
t('constp all', lambda: a.constp(1, 2., 'x', l.T(3), False, l.p0), ret=17, ev=["constp(1,2,'x',3,false,e0)"])
t('results of reduced arities', lambda: (a.retv().v, a.retp().v, a.rets().v, a.retr(l.T(44)).v, a.rete() == l.p1, a.retc().v, a.retstr(), a.retsc() == l.Sc.q, a.retvoid(), a.retb(), a.retb(1)), ret=(1, 2, 3, 44, True, 6, 'r', True, None, True, False), ev=['retvoid(9)'])
'''


def cases(check, rng, tier):
    g, gd = grid()
    c, cd = ctors()
    return [scen('grid', g, gd, jobs=8), scen('constructors', c, cd, jobs=8), scen('expressions', EXPR, EXPR_D, config='+include <pybind11/functional.h>\n')] + \
        worlds('world', seeds(rng, nworlds(tier, 10, 150)), lambda s: [['virtual', 'nested'], ['nested']][s % 2], functions=lambda r: r.randint(8, 16), maxparams=8)


CHECK = Check('C05', 'exploration', 'event log of the values C++ callees received, for every arity and keyword combination, on generated modules',
              'one observation per call form (arity, positional/keyword split) of a function, method or constructor; non-trivial = a distinct combination of callee and arguments given', cases,
              assumptions=['pybind11 2.11 and clang 14 of this sandbox', 'reduced-arity constructors of classes with virtual functions take positional arguments only'])
