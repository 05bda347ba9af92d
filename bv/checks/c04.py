"""C04: a Python call runs exactly the C++ function chosen by name and argument types, once, with the caller's values, and returns its result."""
from ..core import Check
from ..scen import scen, worlds, seeds, nworlds
from ..world import BASIC

INTS = [('bool', 0, 1), ('signed char', -2**7, 2**7 - 1), ('unsigned char', 0, 2**8 - 1), ('short', -2**15, 2**15 - 1), ('unsigned short', 0, 2**16 - 1), ('int', -2**31, 2**31 - 1), ('unsigned', 0, 2**32 - 1),
        ('long', -2**63, 2**63 - 1), ('unsigned long', 0, 2**64 - 1), ('long long', -2**63, 2**63 - 1), ('unsigned long long', 0, 2**64 - 1), ('std::size_t', 0, 2**64 - 1), ('std::int32_t', -2**31, 2**31 - 1), ('std::uint8_t', 0, 255), ('std::ptrdiff_t', -2**63, 2**63 - 1)]


def scalars():
    h, d = '#include <cstdint>\n', 'o = ns("n").C()\n'
    free, mem = '', ''
    for i, (t, lo, hi) in enumerate(INTS):
        for j, f in enumerate(['{}', 'const {}', '{} const &', 'const {} &']):
            p, n = f.format(t), f'{i}_{j}'
            body = f'({p} v) {{ vt::ev("ID{n}", v); return v; }}\n'
            free += f'inline {t} f{n}' + body.replace('ID', 'f')
            mem += f'{t} m{n}' + body.replace('ID', 'm') + f'{t} c{n}' + body.replace('ID', 'c').replace(') {', ') const {') + f'static {t} s{n}' + body.replace('ID', 's')
            for k, call in (('f', f'ns("n").f{n}'), ('m', f'o.m{n}'), ('c', f'o.c{n}'), ('s', f'ns("n").C.s{n}')):
                for v in (lo, hi):
                    vv = bool(v) if t == 'bool' else v
                    d += f't("{k} {p} {vv}", lambda: {call}({vv}), ret={vv}, ev=["{k}{n}({str(vv).lower()})"])\n'
                if t != 'bool' and j == 0:
                    d += f't("{k} {p} too big", lambda: {call}({hi + 1}), exc="TypeError", ev=[])\nt("{k} {p} too small", lambda: {call}({lo - 1}), exc="TypeError", ev=[])\n'
    for i, (t, v) in enumerate([('double', 1.5), ('float', -2.25), ('double', 1e300), ('long double', 0.5)]):
        for j, f in enumerate(['{}', 'const {}', '{} const &']):
            p, n = f.format(t), f'd{i}_{j}'
            free += f'inline {t} f{n}({p} v) {{ vt::ev("f{n}", double(v)); return v; }}\n'
            if t != 'long double': d += f't("{p} {v}", lambda: ns("n").f{n}({v}), ret={v}, ev=["f{n}({"%.17g" % v})"])\n'
    return h + f'namespace n {{\n{free}\nstruct C {{\n{mem}\n}};\n}}\n', d


OVER = r'''
namespace n {
enum class E { x = 3, y = 9 };
struct B { int id = 1; B() {} B(int i) : id(i) {} };
struct D : B { D() {} D(int i) : B(i) {} };
struct S { };
inline int f() { vt::ev("f()"); return 0; }
inline int f(int a) { vt::ev("f(int)", a); return 1; }
inline int f(double a) { vt::ev("f(double)", a); return 2; }
inline int f(std::string a) { vt::ev("f(string)", a); return 3; }
inline int fe(E a) { vt::ev("fe(E)", a); return 4; }
inline int fe(std::string a) { vt::ev("fe(string)", a); return 13; }
inline int f(B const &a) { vt::ev("f(B)", a.id); return 5; }
inline int f(int a, int b) { vt::ev("f(int,int)", a, b); return 6; }
inline int f(int a, std::string b) { vt::ev("f(int,string)", a, b); return 7; }
inline int f(std::string a, int b) { vt::ev("f(string,int)", a, b); return 8; }
inline int f(S &, int a, B *b) { vt::ev("f(S,int,B*)", a, b ? b->id : -1); return 9; }
inline int f(int, int, int, int, int) { vt::ev("f(5)"); return 10; }
inline int f(B const &a, B const &b) { vt::ev("f(B,B)", a.id, b.id); return 11; }
inline int f(S const &a, B const &b) { vt::ev("f(S,B)", b.id); return 12; }
struct C {
	int g() { vt::ev("g()"); return 0; }
	int g(int a) { vt::ev("g(int)", a); return 1; }
	int g(double a) const { vt::ev("g(double)const", a); return 2; }
	int g(std::string const &a) { vt::ev("g(string)", a); return 3; }
	int g(B *a) { vt::ev("g(B*)", a->id); return 5; }
	int g(int a, int b) { vt::ev("g(int,int)", a, b); return 6; }
	int g(C const &, std::string b) { vt::ev("g(C,string)", b); return 7; }
	int h(int a) { vt::ev("h nonconst", a); return 1; }
	int h(int a) const { vt::ev("h const", a); return 2; }
	int h(int a, int b) const { vt::ev("h2 const", a, b); return 3; }
	int only(int a) const { vt::ev("only const", a); return 4; }
	static int s() { vt::ev("s()"); return 0; }
	static int s(int a) { vt::ev("s(int)", a); return 1; }
	static int s(std::string a) { vt::ev("s(string)", a); return 2; }
	static int s(C &, int a) { vt::ev("s(C,int)", a); return 3; }
};
struct DC : C { int g(int a) { vt::ev("DC::g(int)", a); return 101; } int d() { vt::ev("d()"); return 102; } };
}
namespace m { inline int f(int a) { vt::ev("m::f", a); return 201; } namespace n { inline int f(int a) { vt::ev("m::n::f", a); return 202; } struct C { int g(int a) { vt::ev("m::n::C::g", a); return 203; } }; } }
inline int f(int a) { vt::ev("::f", a); return 204; }
'''
OVER_D = r'''
n = M.n
for a, r, e in [((), 0, 'f()()'), ((5,), 1, 'f(int)(5)'), ((1.5,), 2, 'f(double)(1.5)'), (('x',), 3, "f(string)('x')"), ((n.B(7),), 5, 'f(B)(7)'), ((n.D(8),), 5, 'f(B)(8)'), ((1, 2), 6, 'f(int,int)(1,2)'),
                ((1, 'y'), 7, "f(int,string)(1,'y')"), (('y', 1), 8, "f(string,int)('y',1)"), ((n.S(), 3, n.B(4)), 9, 'f(S,int,B*)(3,4)'), ((n.S(), 3, None), 9, 'f(S,int,B*)(3,-1)'), ((1, 2, 3, 4, 5), 10, 'f(5)()'), ((n.B(1), n.D(2)), 11, 'f(B,B)(1,2)'), ((n.S(), n.D(2)), 12, 'f(S,B)(2)')]:
    t(f'n::f{a}', lambda: n.f(*a), ret=r, ev=[e])
for a in [(1, 2, 3), ([],), (n.S(),), (1, 1.5), (None, None, None), ({},), ('x', 'y')]: t(f'n::f{a} has no candidate', lambda: n.f(*a), exc='TypeError', ev=[])
for o in (n.C(), n.DC()):
    for a, r, e in [((), 0, 'g()()'), ((1.5,), 2, 'g(double)const(1.5)'), (('x',), 3, "g(string)('x')"), ((n.D(6),), 5, 'g(B*)(6)'), ((1, 2), 6, 'g(int,int)(1,2)'), ((n.C(), 'z'), 7, "g(C,string)('z')")]:
        t(f'C::g{a} on {type(o).__name__}', lambda: n.C.g(o, *a), ret=r, ev=[e])
    t('h non-const twin', lambda: o.h(3), ret=1, ev=['h nonconst(3)'])
    t('h const overload of another signature', lambda: o.h(3, 4), ret=3, ev=['h2 const(3,4)'])
    t('only const', lambda: o.only(3), ret=4, ev=['only const(3)'])
    for a, r, e in [((), 0, 's()()'), ((1,), 1, 's(int)(1)'), (('x',), 2, "s(string)('x')"), ((n.C(), 9), 3, 's(C,int)(9)')]:
        t(f's{a} through object', lambda: o.s(*a), ret=r, ev=[e])
        t(f's{a} through class', lambda: type(o).s(*a), ret=r, ev=[e])
t('overloads of h', lambda: overloads(n.C.h), ret=2)
t('overloads of f', lambda: overloads(n.f), ret=12)
t('fe', lambda: (n.fe(n.E.y), n.fe('x')), ret=(4, 13), ev=['fe(E)(e9)', "fe(string)('x')"])
t('int is no scoped enum', lambda: n.fe(3), exc='TypeError', ev=[])
t('overloads of g', lambda: overloads(n.C.g), ret=7)
t('g on derived', lambda: n.DC().g(5), ret=101, ev=['DC::g(int)(5)'])
t('d', lambda: n.DC().d(), ret=102, ev=['d()()'])
t('m::f', lambda: M.m.f(1), ret=201, ev=['m::f(1)'])
t('m::n::f', lambda: M.m.n.f(1), ret=202, ev=['m::n::f(1)'])
t('m::n::C::g', lambda: M.m.n.C().g(1), ret=203, ev=['m::n::C::g(1)'])
t('::f', lambda: M.f(1), ret=204, ev=['::f(1)'])
'''

PASS = r'''
namespace n {
struct K { int v; K(int a = 0) : v(a) {} K(K const &o) : v(o.v) {} virtual ~K() {} unsigned long addr() const { return (unsigned long)this; } };
struct L : K { L(int a) : K(a) {} };
struct P { int w = 5; K k; std::shared_ptr<K> sp = std::make_shared<K>(70); K &ref() { return k; } K const &cref() const { return k; } K *ptr() { return &k; } K const *cptr() const { return &k; } K val() const { return k; } std::shared_ptr<K> shared() { return sp; } std::shared_ptr<K> const &cshared() const { return sp; } P &self() { return *this; } P *selfp() { return this; } K *null() { return nullptr; } std::shared_ptr<K> nulls() { return nullptr; } };
inline unsigned long by_ref(K &k) { k.v += 1; return k.addr(); }
inline unsigned long by_cref(K const &k) { return k.addr(); }
inline unsigned long by_ptr(K *k) { if( k ) k->v += 1; return (unsigned long)k; }
inline unsigned long by_cptr(K const *k) { return (unsigned long)k; }
inline unsigned long by_val(K k) { k.v = 999; return k.addr(); }
inline int val_of(K k) { return k.v; }
inline unsigned long by_sp(std::shared_ptr<K> k) { if( k ) k->v += 1; return (unsigned long)k.get(); }
inline unsigned long by_csp(std::shared_ptr<K> const &k) { return (unsigned long)k.get(); }
inline std::shared_ptr<K> same(std::shared_ptr<K> k) { return k; }
inline K *samep(K *k) { return k; }
inline K &samer(K &k) { return k; }
inline K const &samecr(K const &k) { return k; }
inline int swap2(K &a, K &b) { int t = a.v; a.v = b.v; b.v = t; return a.v * 1000 + b.v; }
inline int order(K const &a, int b, K *c, std::string const &d, std::shared_ptr<K> e, double f) { vt::ev("order", a.v, b, c->v, d, e->v, f); return 1; }
inline int nine(int a, int b, int c, int d, int e, int f, int g, int h, int i) { vt::ev("nine", a, b, c, d, e, f, g, h, i); return 9; }
inline int fourteen(int a, int b, int c, int d, int e, int f, int g, int h, int i, int j, int k, int l, int m, int n) { vt::ev("fourteen", a, b, c, d, e, f, g, h, i, j, k, l, m, n); return 14; }
inline void unnamed(int, int b, double) { vt::ev("unnamed", b); }
inline std::pair<int, std::string> mkpair(std::pair<int, std::string> p) { vt::ev("mkpair", p.first, p.second); return {p.first + 1, p.second + "!"}; }
inline int cpair(std::pair<int, int> const &p) { return p.first * 10 + p.second; }
typedef K Alias; using Alias2 = Alias; typedef int Int; typedef std::shared_ptr<K> KP;
inline int alias(Alias const &a, Alias2 *b, Int c, KP d) { vt::ev("alias", a.v, b->v, c, d->v); return 3; }
inline int elaborated(struct K const &a) { return a.v; }
inline void str_ref(std::string &s) { vt::ev("str_ref", s); s = "changed"; }
inline std::string concat(const char *a, std::string b, const std::string &c) { return std::string(a) + b + c; }
inline const char *cstr() { return "literal"; }
inline std::string const &sref() { static std::string s{"static"}; return s; }
inline char ch(char c) { return c + 1; }
inline int variadic(int a, ...) { vt::ev("variadic", a); return a + 1; }
inline long long big() { return 9007199254740993LL; }
inline unsigned long long ubig() { return 18446744073709551615ULL; }
inline float flt() { return 0.1f; }
inline void nothing() {}
inline int noex(int a) noexcept { return a + 1; }
constexpr int cexpr(int a) { return a + 2; }
static inline int stat(int a) { return a + 3; }
extern "C" { inline int cfunc(int a) { return a + 4; } }
[[deprecated]] inline int depr(int a) { return a + 5; }
inline auto trailing(int a) -> int { return a + 6; }
struct Fw; Fw *mkfw(); struct Fw { int z = 1; }; inline Fw *mkfw() { return new Fw; } inline int usefw(Fw const &f) { return f.z; }
}
'''
PASS_D = r'''
n = M.n
for mk in (lambda: n.K(5), lambda: n.L(5)):
    k = mk(); a = k.addr()
    t('by_ref same object', lambda: n.by_ref(k), ret=a)
    t('by_ref mutation', lambda: k.v, ret=6)
    t('by_ptr same object', lambda: n.by_ptr(k), ret=a)
    t('by_cptr same object', lambda: n.by_cptr(k), ret=a)
    t('by_cref same object', lambda: n.by_cref(k), ret=a)
    t('by_sp same object', lambda: n.by_sp(k), ret=a)
    t('by_csp same object', lambda: n.by_csp(k), ret=a)
    t('mutations', lambda: k.v, ret=8)
    t('by_val copies', lambda: (n.by_val(k) != a, k.v), ret=(True, 8))
    t('val_of', lambda: n.val_of(k), ret=8)
    t('same', lambda: n.same(k) is k, ret=True)
    t('samep', lambda: n.samep(k) is k, ret=True)
    t('swap2', lambda: (lambda x, y: (n.swap2(x, y), x.v, y.v))(n.K(3), n.L(4)), ret=(4003, 4, 3))
t('None pointer', lambda: (n.by_ptr(None), n.by_cptr(None), n.by_sp(None)), ret=(0, 0, 0))
t('None is no reference', lambda: n.by_ref(None), exc=True)
t('samep None', lambda: n.samep(None), ret=None)
p = n.P()
t('ref', lambda: p.ref().addr(), ret=p.k.addr())
t('ref mutate', lambda: (setattr(p.ref(), 'v', 55), p.k.v, p.cref().v, p.ptr().v, p.cptr().v, p.val().v)[1:], ret=(55,) * 5)
t('val is a copy', lambda: (setattr(p.val(), 'v', 1), p.k.v)[1], ret=55)
t('shared', lambda: (p.shared() is p.shared(), p.cshared() is p.shared(), p.shared().v), ret=(True, True, 70))
t('self', lambda: (p.self() is p, p.selfp() is p), ret=(True, True))
t('null', lambda: (p.null(), p.nulls()), ret=(None, None))
t('order', lambda: n.order(n.K(1), 2, n.L(3), 'four', n.K(5), 6.5), ret=1, ev=["order(1,2,3,'four',5,6.5)"])
t('nine', lambda: n.nine(*range(1, 10)), ret=9, ev=['nine(1,2,3,4,5,6,7,8,9)'])
t('fourteen', lambda: n.fourteen(*range(1, 15)), ret=14, ev=['fourteen(1,2,3,4,5,6,7,8,9,10,11,12,13,14)'])
t('unnamed', lambda: n.unnamed(1, 2, 3.), ret=None, ev=['unnamed(2)'])
t('pair', lambda: n.mkpair((3, 'a')), ret=(4, 'a!'), ev=["mkpair(3,'a')"])
t('cpair', lambda: n.cpair((3, 4)), ret=34)
t('alias', lambda: n.alias(n.K(1), n.K(2), 3, n.K(4)), ret=3, ev=['alias(1,2,3,4)'])
t('elaborated', lambda: n.elaborated(n.K(12)), ret=12)
t('str_ref', lambda: n.str_ref('in'), ret=None, ev=["str_ref('in')"])
t('concat', lambda: n.concat('a', 'b\u00e9', 'c'), ret='ab\u00e9c')
t('cstr', lambda: (n.cstr(), n.sref(), n.ch('a')), ret=('literal', 'static', 'b'))
t('variadic', lambda: n.variadic(4), ret=5, ev=['variadic(4)'])
t('big', lambda: (n.big(), n.ubig(), n.nothing()), ret=(9007199254740993, 18446744073709551615, None))
t('flt', lambda: abs(n.flt() - .1) < 1e-7, ret=True)
t('kinds', lambda: (n.noex(1), n.cexpr(1), n.stat(1), n.cfunc(1), n.depr(1), n.trailing(1)), ret=(2, 3, 4, 5, 6, 7))
t('fwd', lambda: n.usefw(n.mkfw()), ret=1)
t('too few', lambda: n.nine(1, 2), exc='TypeError', ev=[])
t('too many', lambda: n.nothing(1), exc='TypeError', ev=[])
t('wrong class', lambda: n.by_cref(n.P()), exc='TypeError')
'''

EXC = r'''
#include <stdexcept>
#include <new>
namespace n {
struct K { K(int a) { if( a < 0 ) throw std::invalid_argument("neg"); } int m(int a) { if( a > 5 ) throw std::out_of_range("oor"); return a; } static int s(int a) { if( a ) throw std::overflow_error("ovf"); return 1; } int d(int a, int b = 0) { if( b == 0 ) throw std::domain_error("dom"); return a / b; } };
inline int f(int k) { vt::ev("f", k); switch( k ) { case 1: throw std::runtime_error("rt"); case 2: throw std::out_of_range("oor"); case 3: throw std::invalid_argument("inv"); case 4: throw std::bad_alloc(); case 5: throw std::length_error("len"); case 6: throw std::logic_error("log"); case 7: throw 42; } return k; }
}
'''
EXC_D = r'''
n = M.n
for k, e in [(1, 'RuntimeError'), (2, 'IndexError'), (3, 'ValueError'), (4, 'MemoryError'), (5, 'ValueError'), (6, 'RuntimeError'), (7, 'RuntimeError')]:
    t(f'exception {k}', lambda: n.f(k), exc=e, ev=[f'f({k})'])
    t('works afterwards', lambda: n.f(0), ret=0, ev=['f(0)'])
t('ctor throws', lambda: n.K(-1), exc='ValueError')
k = n.K(1)
t('method throws', lambda: k.m(6), exc='IndexError')
t('method ok', lambda: k.m(5), ret=5)
t('static throws', lambda: n.K.s(1), exc='OverflowError')
t('default arity throws', lambda: k.d(1), exc='ValueError')
t('full arity', lambda: k.d(6, 2), ret=3)
'''

TMPL = r'''
#include <functional>
#include <utility>
namespace n {
template <typename T> T twice(T v) { vt::ev("twice", v); return v + v; }
template int twice<int>(int); template double twice<double>(double); template std::string twice<std::string>(std::string);
template <typename A, typename B> int two(A const &a, B b) { vt::ev("two", a, b); return sizeof(A) * 10 + sizeof(B); }
template int two<int, double>(int const &, double); template int two<char, short>(char const &, short);
template <int N> int num(int a) { vt::ev("num", N, a); return a * N; }
template int num<7>(int);
template <typename T> struct Box { T v; Box(T a = T()) : v(a) {} T get() const { return v; } void set(T const &a) { v = a; } template <typename U> U conv(U u) { vt::ev("conv", u); return u; } static int count(T a) { vt::ev("count", a); return 5; } };
template int Box<int>::conv<int>(int);
inline Box<int> mk(int a) { return Box<int>(a); }
inline int take(Box<int> const &a, Box<std::string> &b) { vt::ev("take", a.v, b.v); return 1; }
struct H { template <typename T> T id(T v) const { vt::ev("id", v); return v; } };
template int H::id<int>(int) const; template std::string H::id<std::string>(std::string) const;
template <typename... A> int pack(A... a) { vt::ev("pack", a...); return sizeof...(a); }
template int pack<int, double>(int, double);
struct Base { protected: int prot(int a) { vt::ev("prot", a); return a + 1; } int over(int a) { vt::ev("over(int)", a); return 1; } int over(std::string a) { vt::ev("over(string)", a); return 2; } int cst(int a) const { vt::ev("cst", a); return 3; } };
struct Lift : Base { using Base::prot; using Base::over; using Base::cst; };
inline int apply(std::function<int(int)> const &f, int v) { return f(v) + 1; }
}
'''
TMPL_D = r'''
n = M.n
t('twice', lambda: (n.twice(4), n.twice(1.5), n.twice('ab')), ret=(8, 3.0, 'abab'), ev=['twice(4)', 'twice(1.5)', "twice('ab')"])
t('two', lambda: n.two(4, 1.5), ret=48, ev=['two(4,1.5)'])
t('num', lambda: n.num(6), ret=42, ev=['num(7,6)'])
t('pack', lambda: n.pack(6, .5), ret=2, ev=['pack(6,0.5)'])
b, s = n.Box_int_t(3), n.Box_std_string_t('q')
t('Box', lambda: (b.get(), s.get(), n.mk(8).get(), n.take(b, s)), ret=(3, 'q', 8, 1), ev=["take(3,'q')"])
t('Box set', lambda: (b.set(9), b.v, b.get(), s.set('w'), s.v), ret=(None, 9, 9, None, 'w'))
t('Box conv', lambda: b.conv(5), ret=5, ev=['conv(5)'])
t('Box count', lambda: (n.Box_int_t.count(5), n.Box_std_string_t.count('x')), ret=(5, 5), ev=['count(5)', "count('x')"])
h = n.H()
t('member templates', lambda: (h.id(5), h.id('x')), ret=(5, 'x'), ev=['id(5)', "id('x')"])
l = n.Lift()
t('using', lambda: (l.prot(3), l.over(4), l.over('five'), l.cst(6)), ret=(4, 1, 2, 3), ev=['prot(3)', 'over(int)(4)', "over(string)('five')", 'cst(6)'])
t('std::function', lambda: n.apply(lambda v: v * 10, 4), ret=41)
'''


POL = '+default_member_pointer_return_value_policy pybind11::return_value_policy::reference_internal\n+default_member_lvalue_reference_return_value_policy pybind11::return_value_policy::reference_internal\n'


def cases(check, rng, tier):
    sc, scd = scalars()
    return [scen('scalars', sc, scd), scen('overloads', OVER, OVER_D), scen('passing', PASS, PASS_D, config=POL), scen('exceptions', EXC, EXC_D), scen('templates', TMPL, TMPL_D, config='+include <pybind11/functional.h>\n')] + \
        worlds('world', seeds(rng, nworlds(tier, 12, 150)), lambda s: [['virtual', 'nested'], ['nested', 'hidden']][s % 2], functions=lambda r: r.randint(8, 18), maxparams=7)


CHECK = Check('C04', 'exploration', 'in-process event log of instrumented C++ callees compared with the call made from Python, on generated modules',
              'one observation per Python call: expected callee, argument values, call count, result or exception class; non-trivial = the call reached (or had to be refused by) a distinct C++ callee signature', cases,
              assumptions=['pybind11 2.11 and clang 14 of this sandbox', 'callees are instrumented headers'])
