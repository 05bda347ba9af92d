"""C11: member operators under their Python names, and printing through operator<<."""
from ..core import Check
from ..scen import scen, worlds, seeds, nworlds

BIN = {'+': ('__add__', '+'), '-': ('__sub__', '-'), '*': ('__mul__', '*'), '/': ('__truediv__', '/'), '%': ('__mod__', '%'), '|': ('__or__', '|'), '&': ('__and__', '&'), '^': ('__xor__', '^'), '<<': ('__lshift__', '<<'), '>>': ('__rshift__', '>>')}
INP = {'+=': '__iadd__', '-=': '__isub__', '*=': '__imul__', '/=': '__itruediv__', '%=': '__imod__', '|=': '__ior__', '&=': '__iand__', '^=': '__ixor__', '<<=': '__ilshift__', '>>=': '__irshift__'}
UN = {'+': '__pos__', '-': '__neg__', '~': '__invert__'}
NAMED = {'*': 'dereference', '++': ('pre_increment', 'post_increment'), '--': ('pre_decrement', 'post_decrement')}
RHS = [('int', 'int a', 'a', 7, '7'), ('str', 'std::string const &a', 'a', '"s"', "'s'"), ('obj', 'K const &a', 'a.v', 'n.K(5)', '5'), ('ref', 'K &a', 'a.v', 'n.K(6)', '6'), ('ptr', 'K *a', 'a->v', 'n.K(8)', '8'), ('dbl', 'double a', 'a', 2.5, '2.5'), ('enum', 'E a', '(int)a', 'n.E.x', '3'), ('val', 'K a', 'a.v', 'n.K(9)', '9')]


def grid():
    h = '''namespace n {
enum class E { x = 3 };
struct K { int v; K(int a) : v(a) {} K(K const &o) : v(o.v) {} };
'''
    d = '''n = M.n
import operator as o
'''
    k = 0
    for cv in ('', ' const'):
        for rn, par, lg, py, log in RHS:
            k += 1
            C = f'C{k}'
            h += f'struct {C} {{ int v; {C}(int a) : v(a) {{}} {C}({C} const &o) : v(o.v) {{}}\n'
            for op in BIN: h += f'K operator{op}({par}){cv} {{ vt::ev("{C}{op}", v, {lg}); return K(v + 100); }}\n'
            if not cv:
                for op in INP: h += f'{C} &operator{op}({par}) {{ vt::ev("{C}{op}", v, {lg}); v += 1; return *this; }}\n'
            h += f'bool operator==({par}){cv} {{ vt::ev("{C}==", v, {lg}); return v == 2; }} bool operator!=({par}){cv} {{ vt::ev("{C}!=", v, {lg}); return v == 2; }}\nint operator[]({par}){cv} {{ vt::ev("{C}[]", v, {lg}); return v + 200; }} std::string operator()({par}){cv} {{ vt::ev("{C}()", v, {lg}); return "c"; }}\n'
            h += f'bool operator<({par}) const {{ return true; }} bool operator>({par}) const {{ return true; }} bool operator&&({par}) const {{ return true; }} bool operator,({par}) const {{ return true; }} }};\n'
            for op, (nm, po) in BIN.items():
                d += f't("{op}({par}){cv}", lambda: (n.{C}(1) {po} {py}).v, ret=101, ev=["{C}{op}(1,{log})"])\n'
                d += f't("{nm} of {op}({par}){cv}", lambda: n.{C}(3).{nm}({py}).v, ret=103, ev=["{C}{op}(3,{log})"])\n'
            if not cv:
                for op, nm in INP.items(): d += f'def f():\n    a = n.{C}(4); b = a\n    a {op} {py}\n    return a.v, a is b, type(a) is n.{C}\nt("{op}({par})", f, ret=(5, True, True), ev=["{C}{op}(4,{log})"])\n'
            d += f't("==({par}){cv}", lambda: (n.{C}(2) == {py}, n.{C}(1) == {py}), ret=(True, False), ev=["{C}==(2,{log})", "{C}==(1,{log})"])\nt("!=({par}){cv}", lambda: (n.{C}(2) != {py}, n.{C}(1) != {py}), ret=(True, False), ev=["{C}!=(2,{log})", "{C}!=(1,{log})"])\n'
            d += f't("[]({par}){cv}", lambda: n.{C}(1)[{py}], ret=201, ev=["{C}[](1,{log})"])\nt("()({par}){cv}", lambda: n.{C}(1)({py}), ret="c", ev=["{C}()(1,{log})"])\n'
            d += f't("names {C}", lambda: sorted(x for x in own(n.{C}) if x not in ("__doc__", "__module__", "__init__", "__hash__")), ret={sorted([nm for nm, _ in BIN.values()] + (list(INP.values()) if not cv else []) + ["__eq__", "__ne__", "__getitem__", "__call__", "v"])!r})\n'
            d += f't("wrong operand {C}", lambda: n.{C}(1) + [], exc="TypeError")\nt("wrong index {C}", lambda: n.{C}(1)[None:None], exc="TypeError")\n'
    return h + '}\n', d


FORMS = r'''
#include <vector>
#include <iostream>
namespace n {
struct K { int v = 0; K(int a = 0) : v(a) {} K(K const &o) : v(o.v) {}
	K operator+() const { vt::ev("+u", v); return K(v); } K operator-() const { vt::ev("-u", v); return K(-v); } K operator~() const { vt::ev("~u", v); return K(~v); }
	K operator+(K const &o) const { vt::ev("+b", v, o.v); return K(v + o.v); } K operator-(K const &o) const { vt::ev("-b", v, o.v); return K(v - o.v); } K operator*(K const &o) const { vt::ev("*b", v, o.v); return K(v * o.v); } int operator*() const { vt::ev("*u", v); return v * 1000; } K *operator&() { return this; } K operator&(K const &o) const { vt::ev("&b", v, o.v); return K(v & o.v); }
	K &operator++() { vt::ev("++pre", v); ++v; return *this; } K operator++(int) { vt::ev("post++", v); K r(v); ++v; return r; } K &operator--() { vt::ev("--pre", v); --v; return *this; } K operator--(int) { vt::ev("post--", v); K r(v); --v; return r; }
	K &operator=(K const &o) { vt::ev("=", v, o.v); v = o.v; return *this; } K &operator=(int o) { vt::ev("=i", v, o); v = o; return *this; }
	bool operator!() const { return !v; } operator int() const { return v; } explicit operator bool() const { return true; } bool operator<(K const &o) const { return v < o.v; } bool operator<=(K const &o) const { return true; } bool operator>=(K const &o) const { return true; }
	K operator-(int o) const { vt::ev("-i", v, o); return K(v - o); } std::string operator-(std::string const &o) const { vt::ev("-s", v, o); return o; } K operator+(double o) const { vt::ev("+d", v, o); return K(v + 1); } };
struct OnlyUn { OnlyUn operator-() { vt::ev("un"); return *this; } }; struct OnlyBin { int operator-(int a) { vt::ev("bin", a); return a; } int operator*(int a) { vt::ev("binm", a); return a; } }; struct OnlyDeref { int operator*() { vt::ev("deref"); return 9; } };
struct Call { int operator()() const { vt::ev("c0"); return 0; } int operator()(int a) { vt::ev("c1", a); return 1; } int operator()(int a, std::string const &b, double c = 2.5) { vt::ev("c3", a, b, c); return 3; } int operator()(K const &k) const { vt::ev("ck", k.v); return 4; } int operator()(int a, int b, int c, int d) { vt::ev("c4", a, b, c, d); return 5; } };
struct Idx { std::vector<int> d{1, 2, 3}; int &operator[](unsigned i) { vt::ev("[]", i); return d.at(i); } int operator[](unsigned i) const { vt::ev("[]c", i); return d.at(i); } std::string operator[](std::string const &s) const { vt::ev("[]s", s); return s + "!"; } };
struct IdxC { int operator[](int i) const { vt::ev("[]c", i); return i * 2; } K &operator[](std::string const &s) { vt::ev("[]k", s); static K k(77); return k; } };
struct Arrow { K k{5}; K *operator->() { vt::ev("->", k.v); return new K(k.v); } }; struct Ptr { K k{6}; K &operator*() { vt::ev("*", k.v); return k; } K *operator->() { vt::ev("->", k.v); return new K(k.v); } };
struct Eq { int v; Eq(int a) : v(a) {} bool operator==(Eq const &o) const { vt::ev("==", v, o.v); return v == o.v; } bool operator!=(Eq const &o) const { vt::ev("!=", v, o.v); return v != o.v; } bool operator==(int o) const { vt::ev("==i", v, o); return v == o; } };
struct Base { int b = 1; virtual ~Base() {} int operator+(int a) const { vt::ev("Base+", b, a); return a; } virtual int operator-(int a) const { vt::ev("Base-", b, a); return a; } Base &operator+=(int a) { vt::ev("Base+=", b, a); b += a; return *this; } int operator%(int a) { vt::ev("Base%", a); return 1; } };
struct Der : Base { int operator-(int a) const override { vt::ev("Der-", b, a); return 2 * a; } int operator%(std::string const &a) { vt::ev("Der%", a); return 2; } int operator*(int a) const { vt::ev("Der*", a); return 3; } };
struct DerU : Base { using Base::operator%; int operator%(std::string const &a) { vt::ev("DerU%", a); return 2; } };
template <typename T> struct V { T x; V(T a = T()) : x(a) {} V operator+(V const &o) const { vt::ev("V+", x, o.x); return V(x + o.x); } V operator-() const { vt::ev("V-"); return V(x); } T operator[](int i) const { vt::ev("V[]", i); return x; } bool operator==(V const &o) const { return x == o.x; } V &operator+=(T a) { vt::ev("V+=", a); x = x + a; return *this; } };
inline V<int> mki(int a) { return V<int>(a); } inline V<std::string> mks(std::string a) { return V<std::string>(a); }
struct Free { int v = 4; Free(int a = 4) : v(a) {} }; inline Free operator+(Free const &a, Free const &b) { return Free(a.v + b.v); } inline bool operator==(Free const &a, Free const &b) { return a.v == b.v; }
struct Hid { int v = 1; protected: int operator+(int) { return 1; } private: int operator*(int) { return 1; } public: int operator-(int) = delete; int operator/(int a) { vt::ev("Hid/", a); return a; } };
struct Chain { int v = 0; Chain &operator<<(int a) { vt::ev("<<", v, a); v = v * 10 + a; return *this; } Chain &operator<<(std::string const &s) { vt::ev("<<s", s); v = v * 10; return *this; } int operator>>(int a) { vt::ev(">>", v, a); return v; } };
struct Ret { K *p() { return nullptr; } std::shared_ptr<K> operator+(int a) { vt::ev("sp", a); return std::make_shared<K>(a); } void operator-=(int a) { vt::ev("void-=", a); } int operator+=(int a) { vt::ev("int+=", a); return a + 1; } bool operator()(bool b) { vt::ev("b", b); return !b; } };
struct Thr { int operator+(int) { throw std::out_of_range("oor"); } int operator[](int i) { if( i > 2 ) throw std::out_of_range("end"); return i * 5; } };
}
'''
FORMS_D = r'''
n = M.n; K = n.K
t('unary', lambda: ((+K(3)).v, (-K(3)).v, (~K(3)).v), ret=(3, -3, -4), ev=['+u(3)', '-u(3)', '~u(3)'])
t('binary', lambda: ((K(3) + K(4)).v, (K(3) - K(4)).v, (K(3) * K(4)).v, (K(6) & K(3)).v), ret=(7, -1, 12, 2), ev=['+b(3,4)', '-b(3,4)', '*b(3,4)', '&b(6,3)'])
t('overloads', lambda: ((K(3) - 4).v, K(3) - 'x', (K(3) + 1.5).v), ret=(-1, 'x', 4), ev=['-i(3,4)', '-s(3,\'x\')', '+d(3,1.5)'])
t('order of operands', lambda: ((K(10) - K(1)).v, (K(1) - K(10)).v), ret=(9, -9), ev=['-b(10,1)', '-b(1,10)'])
def inc():
    k = K(5); a = k.pre_increment(); b = k.post_increment(0); return a.v, a is k, b.v, b is k, k.v
t('++', inc, ret=(7, True, 6, False, 7), ev=['++pre(5)', 'post++(6)'])
def dec():
    k = K(5); a = k.pre_decrement(); b = k.post_decrement(0); return a.v, a is k, b.v, b is k, k.v
t('--', dec, ret=(3, True, 4, False, 3), ev=['--pre(5)', 'post--(4)'])
def asg():
    k, l = K(1), K(2); r = k.assign(l); x = k.v; r2 = k.assign(9); return x, r is k, r2 is k, k.v, l.v
t('assign', asg, ret=(2, True, True, 9, 2), ev=['=(1,2)', '=i(2,9)'])
t('dereference', lambda: K(2).dereference(), ret=2000, ev=['*u(2)'])
t('K names', lambda: sorted(x for x in own(K) if x not in ('__doc__', '__module__', '__init__', '__hash__', '__bool__')), ret=sorted(['__pos__', '__neg__', '__invert__', '__add__', '__sub__', '__mul__', '__and__', 'dereference', 'pre_increment', 'post_increment', 'pre_decrement', 'post_decrement', 'assign', 'v']))
t('unary only', lambda: type(-n.OnlyUn()) is n.OnlyUn, ret=True, ev=['un()'])
t('unary only is not binary', lambda: n.OnlyUn() - 1, exc='TypeError')
t('binary only', lambda: (n.OnlyBin() - 3, n.OnlyBin() * 4), ret=(3, 4), ev=['bin(3)', 'binm(4)'])
t('binary only is not unary', lambda: -n.OnlyBin(), exc='TypeError')
t('dereference only', lambda: (n.OnlyDeref().dereference(), hasattr(n.OnlyDeref, '__mul__')), ret=(9, False), ev=['deref()'])
c = n.Call()
t('call', lambda: (c(), c(1), c(1, 'b'), c(1, 'b', 3.5), c(K(8)), c(1, 2, 3, 4)), ret=(0, 1, 3, 3, 4, 5), ev=['c0()', 'c1(1)', "c3(1,'b',2.5)", "c3(1,'b',3.5)", 'ck(8)', 'c4(1,2,3,4)'])
t('call wrong', lambda: c(1, 2, 3), exc='TypeError')
i = n.Idx()
t('index', lambda: (i[0], i[2], i['k']), ret=(1, 3, 'k!'), ev=['[](0)', '[](2)', "[]s('k')"])
t('index range', lambda: i[5], exc='IndexError', ev=['[](5)'])
t('index const and not', lambda: (n.IdxC()[4], n.IdxC()['x'].v), ret=(8, 77), ev=['[]c(4)', "[]k('x')"])
ar = n.Arrow()
t('arrow', lambda: ar.arrow().v, ret=5, ev=['->(5)'])
p = n.Ptr()
t('pointer like', lambda: (p.arrow().v, p.dereference().v), ret=(6, 6), ev=['->(6)', '*(6)'])
E = n.Eq
t('equality', lambda: (E(1) == E(1), E(1) == E(2), E(1) != E(1), E(1) != E(2), E(3) == 3, E(3) == 4), ret=(True, False, False, True, True, False), ev=['==(1,1)', '==(1,2)', '!=(1,1)', '!=(1,2)', '==i(3,3)', '==i(3,4)'])
b, d = n.Base(), n.Der()
t('inherited', lambda: (b + 3, d + 3, b - 3, d - 3, n.Base.__sub__(d, 5)), ret=(3, 3, 3, 6, 10), ev=['Base+(1,3)', 'Base+(1,3)', 'Base-(1,3)', 'Der-(1,3)', 'Der-(1,5)'])
def ia():
    x = y = n.Der(); x += 4; return x.b, x is y, type(x) is n.Der
t('inherited in place', ia, ret=(5, True, True), ev=['Base+=(1,4)'])
t('own', lambda: d * 5, ret=3, ev=['Der*(5)'])
t('base has none', lambda: b * 5, exc='TypeError')
t('hidden', lambda: (d % 'x', b % 4), ret=(2, 1), ev=["Der%('x')", 'Base%(4)'])
t('using', lambda: (n.DerU() % 4, n.DerU() % 'x'), ret=(1, 2), ev=['Base%(4)', "DerU%('x')"])
class P(n.Base):
    def __sub__(self, a): return 77
t('override in Python', lambda: (P() - 1, P() + 1), ret=(77, 1), ev=['Base+(1,1)'])
vi, vs = n.mki(4), n.mks('a')
t('template', lambda: ((vi + vi).x, (vs + vs).x, (-vs).x, vi[3], vi == n.mki(4), vs == n.mks('b')), ret=(8, 'aa', 'a', 4, True, False), ev=['V+(4,4)', "V+('a','a')", 'V-()', 'V[](3)'])
def iv():
    x = n.mks('q'); y = x; x += 'r'; return x.x, x is y
t('template in place', iv, ret=('qr', True), ev=["V+=('r')"])
t('template operands are typed', lambda: vi + vs, exc='TypeError')
t('free operators are not members', lambda: (hasattr(n.Free, '__add__'), '__eq__' in own(n.Free), [x for x in names(n) if 'operator' in x]), ret=(False, False, []))
t('hidden ones', lambda: (hasattr(n.Hid, '__add__'), hasattr(n.Hid, '__mul__'), hasattr(n.Hid, '__sub__'), n.Hid() / 4), ret=(False, False, False, 4), ev=['Hid/(4)'])
def ch():
    c = n.Chain(); r = c << 1 << 2 << 'x'; return r is c, c.v, c >> 5
t('chain', ch, ret=(True, 120, 120), ev=['<<(0,1)', '<<(1,2)', "<<s('x')", '>>(120,5)'])
t('results', lambda: ((n.Ret() + 6).v, n.Ret()(True), n.Ret().__isub__(3), n.Ret().__iadd__(4)), ret=(6, False, None, 5), ev=['sp(6)', 'b(true)', 'void-=(3)', 'int+=(4)'])
t('throws', lambda: n.Thr() + 1, exc='IndexError')
t('iterates until the exception', lambda: list(n.Thr()), ret=[0, 5, 10])
'''

PRINT = {'p.hpp': r'''
#include <iostream>
struct G { int v = 1; G(int a = 1) : v(a) {} }; inline std::ostream &operator<<(std::ostream &o, G const &g) { vt::ev("<<G", g.v); return o << "G[" << g.v << ']'; }
class Cl { int h = 2; public: friend std::ostream &operator<<(std::ostream &o, Cl const &); }; inline std::ostream &operator<<(std::ostream &o, Cl const &c) { return o << "Cl" << c.h; }
namespace a { struct S { int v = 3; }; inline std::ostream &operator<<(std::ostream &o, S const &s) { return o << "a::S " << s.v; } struct Ndef {}; struct Mem { int v = 9; };
 namespace b { struct S { int v = 4; }; inline std::ostream &operator<<(std::ostream &o, S const &s) { return o << "a::b::S " << s.v; } struct In { struct Deep { int v = 5; }; }; inline std::ostream &operator<<(std::ostream &o, In::Deep const &s) { return o << "Deep" << s.v; } } }
namespace other { struct S { int v = 33; }; inline std::ostream &operator<<(std::ostream &o, a::Mem const &s) { return o << "Mem" << s.v; } }
template <typename T> struct T1 { T v; T1(T a = T()) : v(a) {} }; template <typename T> std::ostream &operator<<(std::ostream &o, T1<T> const &t) { return o << "T1<" << t.v << '>'; }
template <typename A, typename B> struct T2 { A a{}; B b{}; }; template <typename A, typename B> inline std::ostream &operator<<(std::ostream &o, T2<A, B> const &t) { return o << "T2 " << t.a << '/' << t.b; }
template <typename T> struct TS { T v{}; }; inline std::ostream &operator<<(std::ostream &o, TS<int> const &t) { return o << "TS<int>"; }
namespace q { template <typename T> struct Tq { T v{}; }; template <typename T> std::ostream &operator<<(std::ostream &o, Tq<T> const &t) { return o << "Tq" << t.v; } }
inline T1<int> t1i() { return T1<int>(6); } inline T1<std::string> t1s() { return T1<std::string>("str"); } inline T2<int, double> t2() { return T2<int, double>(); } inline TS<int> tsi() { return TS<int>(); } inline TS<long> tsl() { return TS<long>(); } inline q::Tq<int> tq() { return q::Tq<int>(); } inline T1<bool> t1b() { return T1<bool>(true); }
struct Base { int v = 7; virtual ~Base() {} virtual char const *nm() const { return "Base"; } }; inline std::ostream &operator<<(std::ostream &o, Base const &b) { return o << b.nm() << b.v; }
struct Der : Base { char const *nm() const override { return "Der"; } }; struct Der2 : Base { char const *nm() const override { return "x"; } }; inline std::ostream &operator<<(std::ostream &o, Der2 const &b) { return o << "Der2!"; }
struct NonConst { int v = 1; }; inline std::ostream &operator<<(std::ostream &o, NonConst &b) { return o << "NC"; }
struct Other { int v = 1; }; inline int operator<<(int o, Other const &b) { return o; }
struct Late; std::ostream &operator<<(std::ostream &o, Late const &b); struct Late { int v = 8; }; inline std::ostream &operator<<(std::ostream &o, Late const &b) { return o << "Late" << b.v; }
struct Uni { std::string s = "h\xc3\xa9\xe2\x82\xac"; }; inline std::ostream &operator<<(std::ostream &o, Uni const &b) { return o << b.s << '\n' << "2"; }
struct HasStr { std::string str() const { return "no"; } }; struct Em {}; inline std::ostream &operator<<(std::ostream &o, Em const &) { return o; }
namespace a { using ::G; typedef ::G Gt; } struct Named { int v = 2; }; typedef Named NamedT; inline std::ostream &operator<<(std::ostream &o, NamedT const &n) { return o << "Named" << n.v; }
struct East { int v = 2; }; std::ostream inline &operator<<(std::ostream &o, const East &n) { return o << "East" << n.v; }
struct Skp { int v = 2; }; inline std::ostream &operator<<(std::ostream &o, Skp const &n) { return o << "Skp"; }
namespace ta { template <typename T> struct Tw { T v{}; }; template <typename T> std::ostream &operator<<(std::ostream &o, Tw<T> const &t) { return o << "ta" << t.v; } inline Tw<int> mk() { return Tw<int>(); } }
namespace tb { template <typename T> struct Tw { T v{}; }; inline Tw<int> mk() { return Tw<int>(); } }
namespace tc { template <typename T> struct Tw { T v{}; }; template <typename T> std::ostream &operator<<(std::ostream &o, Tw<T> const &t) { return o << "tc" << t.v; } inline Tw<int> mk() { return Tw<int>(); } }
struct Thr {}; inline std::ostream &operator<<(std::ostream &o, Thr const &) { throw std::out_of_range("no print"); }
'''}
PRINT_D = r'''
a = M.a
t('global', lambda: (str(M.G()), str(M.G(5)), f'{M.G(6)}', '%s' % M.G(7)), ret=('G[1]', 'G[5]', 'G[6]', 'G[7]'), ev=['<<G(1)', '<<G(5)', '<<G(6)', '<<G(7)'])
for l, f, w in [('class and friend', lambda: M.Cl(), 'Cl2'), ('namespace', lambda: a.S(), 'a::S 3'), ('inner namespace', lambda: a.b.S(), 'a::b::S 4'), ('nested class', lambda: a.b.In.Deep(), 'Deep5'), ('operator in another namespace', lambda: a.Mem(), 'Mem9'),
    ('template int', M.t1i, 'T1<6>'), ('template string', M.t1s, 'T1<str>'), ('template bool', M.t1b, 'T1<1>'), ('two parameters', M.t2, 'T2 0/0'), ('specialisation', M.tsi, 'TS<int>'), ('template in namespace', M.tq, 'Tq0'), ('same template name 1', M.ta.mk, 'ta0'), ('same template name 2', M.tc.mk, 'tc0'), ('base', M.Base, 'Base7'), ('derived through base', M.Der, 'Der7'), ('derived with its own', M.Der2, 'Der2!'), ('declared first', M.Late, 'Late8'), ('UTF-8 and lines', M.Uni, 'hé€\n2'), ('empty', M.Em, ''), ('typedef', M.Named, 'Named2'), ('const first', M.East, 'East2')]:
    t(l, lambda: str(f()), ret=w)
def default(o): return str(o).startswith('<mod.') and ' object at 0x' in str(o)
for l, f in [('no operator', a.Ndef), ('other specialisation', M.tsl), ('not const', M.NonConst), ('no stream', M.Other), ('same name in another namespace', M.other.S), ('member str()', M.HasStr), ('skipped', M.Skp), ('same template name without operator', M.tb.mk)]: t(l + ' prints as default', lambda: default(f()), ret=True)
t('throws', lambda: str(M.Thr()), exc='IndexError')
t('repr', lambda: repr(M.G()).startswith('<mod.G object'), ret=True)
t('no other names', lambda: [x for m in (M, a, a.b, M.other, M.q) for x in names(m) if 'operator' in x or 'shift' in x], ret=[])
class P(M.Base):
    pass
class P2(M.Base):
    def __str__(self): return 'py'
t('Python subclasses', lambda: (str(P()), str(P2())), ret=('Base7', 'py'))
'''


def cases(check, rng, tier):
    return [scen('grid', *grid()), scen('forms', FORMS, FORMS_D), scen('print', PRINT, PRINT_D, config='+namespace n\n+namespace \n-function Skp::__str__\n', bind=())] + rand(rng, nworlds(tier, 4, 60)) + printing(rng, nworlds(tier, 5, 60))


def rand(rng, n):
    """random subsets of operators per class, spread over hierarchy and namespaces; operators that are not there stay absent"""
    import random
    out = []
    for s in seeds(rng, n):
        r = random.Random(s)
        h = 'struct X { int v; X(int a) : v(a) {} X(X const &o) : v(o.v) {} };\n'
        d = 'import operator\n'
        for c in range(12):
            C = f'R{c}'
            ns = r.choice(['', 'p', 'p::q'])
            par = r.choice([None] * 2 + [f'R{k}' for k in range(c)]) if c else None
            ops, allops = {}, {**{(o, 2): v[0] for o, v in BIN.items()}, **{(o, 1): v for o, v in UN.items()}, ('*', 1): 'dereference', ('++', 1): 'pre_increment', ('++', 2): 'post_increment', ('--', 1): 'pre_decrement', ('--', 2): 'post_decrement', ('->', 1): 'arrow', ('()', 1): '__call__', ('()', 2): '__call__', ('()', 3): '__call__', ('[]', 2): '__getitem__', ('==', 2): '__eq__', ('!=', 2): '__ne__', **{(o, 2): v for o, v in INP.items()}}
            for k in r.sample(sorted(allops), r.randint(3, 14)): ops[k] = allops[k]
            body = ''
            for (o, ar), nm in r.sample(list(ops.items()), len(ops)):
                T = 'int' if o in ('++', '--') else r.choice(['int', 'X const &'])
                cv = r.choice(['', ' const'])
                args = ', '.join(f'{T} a{j}' if not (o in ('++', '--')) else 'int' for j in range(ar - 1))
                lg = ''.join(f', a{j}' + ('.v' if T != 'int' else '') for j in range(ar - 1)) if o not in ('++', '--') else ''
                ret = ('X *', 'return new X(3)') if o == '->' else ('int', f'return {r.randint(1, 99)}')
                val = ret[1].split()[-1] if o != '->' else None
                body += f'{ret[0]} operator{o}({args}){cv} {{ vt::ev("{C}{o}{ar}"{lg}); {ret[1]}; }}\n'
                pa = ', '.join(str(j + 11) if T == 'int' else f'M.X({j + 11})' for j in range(ar - 1))
                pl = ','.join(str(j + 11) for j in range(ar - 1)) if o not in ('++', '--') else ''
                q = 'M.' + (ns.replace('::', '.') + '.' if ns else '') + C
                d += f't("{C} operator{o} with {ar} operands", lambda: {q}().{nm}({pa}), ' + (f'ret={val}, ' if val else '') + f'ev=["{C}{o}{ar}({pl})"])\n'
            nsp = [x for x in ns.split('::') if x]
            h += ''.join(f'namespace {x} {{ ' for x in nsp) + f'struct {C} {{ int own_{C} = {c};\n{body}}};' + '}' * len(nsp) + '\n'
            d += f't("{C} has these operators only", lambda: sorted(x for x in own({q}) if x not in ("__doc__", "__module__", "__init__", "__hash__", "assign")), ret={sorted(set(ops.values()) | {"own_" + C})!r})\n'
        out.append(scen(f'random-{s}', h, d))
    return out


SPACES = ['', 'lib', 'lib2', 'library', 'lib::in', 'lib::in2', 'lib2::in', 'li', 'std2', 'inner', 'A', 'A::B']


def printing(rng, n):
    """classes and operators << spread over namespaces and headers; every class is printed by the operator that takes it, whichever namespace it is in, and by no other"""
    import random
    out = []
    for s in seeds(rng, n):
        r = random.Random(s)
        d, cls, tmpl, k, ops = '', [], [], 0, []
        # classes: (namespace, C++ name, expression of an instance, fields)
        hs = {'c.hpp': '', 'o.hpp': '#include <c.hpp>\n#include <iostream>\n'}
        wrap = lambda ns, t: ''.join(f'namespace {x} {{ ' for x in ns.split('::') if x) + t + ' }' * len([x for x in ns.split('::') if x]) + '\n'
        py = lambda ns: f'ns({ns!r})'
        spaces = r.sample(SPACES, r.randint(3, 7))
        names, used = ['P', 'Q', 'lib_t', 'In', 'Str'], set()
        for i in range(r.randint(8, 18)):
            ns, nm = r.choice(spaces), r.choice(names)
            kind = r.choice(['plain', 'plain', 'class', 'nested', 'tmpl', 'derived', 'friend'])
            if (ns, nm) in used: continue
            used.add((ns, nm))
            q = '::' + (ns + '::' if ns else '') + nm
            how = r.choice(['op', 'op', 'op', 'none', 'late'])
            on = r.choice([ns, ns] + spaces)
            text = f'<{nm}{i}'
            if kind == 'tmpl':
                hs['c.hpp'] += wrap(ns, f'template <typename T> struct {nm} {{ int v = {i}; T t{{}}; }}; inline {nm}<int> mk{i}i() {{ return {nm}<int>(); }} inline {nm}<bool> mk{i}b() {{ return {nm}<bool>(); }}')
                which = r.choice(['both', 'both', 'int'])
                if how != 'none':
                    t = f'template <typename T> inline std::ostream &operator<<(std::ostream &o, {q}<T> const &x)' if which == 'both' else f'inline std::ostream &operator<<(std::ostream &o, {q}<int> const &x)'
                    ops.append(wrap(on, t + f' {{ return o << "{text} " << x.v << " " << sizeof(x.t) << ">"; }}'))
                for f, sz in (('i', 4), ('b', 1)):
                    yes = how != 'none' and (which == 'both' or f == 'i')
                    d += f't("{q}<{f}>", lambda: shown({py(ns)}.mk{i}{f}()), ret={f"{text} {i} {sz}>" if yes else "default"!r})\n'
                continue
            c, o = q, f'{py(ns)}.{nm}()'
            if kind == 'nested':
                hs['c.hpp'] += wrap(ns, f'struct {nm} {{ int w = 1; struct N{i} {{ int v = {i}; }}; }};')
                c, o = f'{q}::N{i}', f'{py(ns)}.{nm}.N{i}()'
                d += f't("{q} around", lambda: shown({py(ns)}.{nm}()), ret="default")\n'
            elif kind == 'derived' and cls:
                b, bt = r.choice(cls)
                hs['c.hpp'] += wrap(ns, f'struct {nm} : {b} {{ int own{i} = {i}; }};')
                if how == 'none': d += f't("{q} derived", lambda: shown({o}), ret={bt!r})\n'
                else:
                    ops.append(wrap(on, f'inline std::ostream &operator<<(std::ostream &o, {q} const &x) {{ return o << "{text} " << x.own{i} << ">"; }}'))
                    d += f't("{q} derived", lambda: shown({o}), ret={f"{text} {i}>"!r})\n'
                continue
            elif kind == 'friend' and how != 'none':
                hs['c.hpp'] += wrap(ns, f'class {nm} {{ int h = {i}; public: int get() const {{ return h; }} friend std::ostream &operator<<(std::ostream &, {nm} const &); }}; inline std::ostream &operator<<(std::ostream &o, {nm} const &x) {{ return o << "{text} " << x.h << ">"; }}')
                d += f't("{q} friend", lambda: shown({o}), ret={f"{text} {i}>"!r})\n'
                continue
            else: hs['c.hpp'] += wrap(ns, f'struct {nm} {{ int v = {i}; }};' if kind != 'class' else f'class {nm} {{ public: int v = {i}; }};')
            if how != 'none': ops.append((wrap(on, f'std::ostream &operator<<(std::ostream &, {c} const &);') if how == 'late' else '') + wrap(on, f'inline std::ostream &operator<<(std::ostream &o, {r.choice([c + " const", "const " + c])} &x) {{ return o << "{text} " << x.v << ">"; }}'))
            want = f'{text} {i}>' if how != 'none' else 'default'
            d += f't("{c}", lambda: shown({o}), ret={want!r})\n'
            if kind != 'nested': cls.append((q, want))
        r.shuffle(ops)
        hs['c.hpp'] = '#include <iostream>\n' + hs['c.hpp']
        hs['o.hpp'] += ''.join(ops)
        d = 'def shown(o):\n    x = str(o)\n    return "default" if x.startswith("<mod.") and " object at 0x" in x else x\n' + d
        out.append(scen(f'printing-{s}', hs, d, args=r.choice([(), ('--max-file-size', '1'), ('--max-file-size', '2000')])))
    return out


CHECK = Check('C11', 'exploration', 'events of C++ operators caused by Python operator expressions, and text printed by str()',
              'one observation per operator expression (which operator ran, operands in order, result, identity for in-place forms) or printed object; non-trivial = distinct (operator, operand form, constness) or distinct class printed', cases,
              assumptions=['pybind11 2.11 and clang 14 of this sandbox', 'comparison operators other than == and != and logical operators have no binding (documented operator table)'])
