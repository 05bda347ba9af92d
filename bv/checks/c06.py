"""C06: constructors and copies."""
from ..core import Check
from ..scen import scen, worlds, seeds, nworlds

KINDS = r'''
namespace n {
struct Implicit { int x = 5; };
struct Pod { int a; double b; };
struct Agg { int a = 1; std::string s = "agg"; };
struct User { int x; User() : x(1) { vt::ev("User()"); } };
struct Deflt { int x = 2; Deflt() = default; };
struct NoDefault { int x; NoDefault(int a) : x(a) { vt::ev("NoDefault", a); } };
struct DelDefault { int x; DelDefault() = delete; DelDefault(int a) : x(a) {} };
class PrivDefault { PrivDefault() : x(0) {} public: int x; PrivDefault(int a) : x(a) {} static PrivDefault mk() { return PrivDefault(); } };
class ProtDefault { protected: ProtDefault() : x(0) {} public: int x; ProtDefault(int a) : x(a) {} };
struct RefMember { int &r; int own; RefMember(Pod &p) : r(p.a), own(p.a) {} int get() const { return r; } };
struct ConstMember { const int c; ConstMember() : c(7) {} ConstMember(int a) : c(a) {} };
struct ImplicitDel { NoDefault m; }; // implicit default constructors are deleted
struct RefField { int &r; int x; }; struct ConstField { const int c; int x; }; struct ArrField { int x; NoDefault m[2]; }; struct ConstObj { const Pod p; int x; };
struct DelBase : ImplicitDel { int y; }; struct DelDeep : DelBase { int z; }; struct DelHold { DelBase b; }; struct PrivHold { PrivDefault p; }; struct PrivD : PrivDefault { };
struct InitField { NoDefault m = NoDefault(3); const int c = 4; int &r = m.x; int x = 5; }; struct ArrOk { Agg a[2]; int x = 6; }; struct ProtD : ProtDefault { int y = 7; };
struct Mid : NoDefault { Mid() : NoDefault(15) {} }; struct Leaf : Mid { int y = 16; }; struct HoldMid { Mid m; int x = 17; }; struct LeafLeaf : Leaf { };
union Un { int a; double b; }; struct HoldUn { Un u; int x = 18; }; struct AnonUn { union { int a; double b; }; int x = 19; }; struct BitF { int b : 3; int : 0; int x = 20; };
struct Explicit { int x; explicit Explicit(int a) : x(a) {} };
struct Over {
	std::string which;
	Over() : which("()") {}
	Over(int) : which("(int)") {}
	Over(double) : which("(double)") {}
	Over(std::string const &) : which("(string)") {}
	Over(int, int) : which("(int,int)") {}
	Over(Pod const &) : which("(Pod)") {}
	Over(Pod *, int) : which("(Pod*,int)") {}
	Over(std::shared_ptr<Pod>, std::string) : which("(sp,string)") {}
	Over(Over const &o) : which("copy of " + o.which) {}
	Over(Over const &, int a) : which("(Over,int)") {}
};
struct ConstUser { const Over o; int x = 8; };
struct Throw { Throw(int a) { if( a < 0 ) throw std::string("no"); } };
struct Inh0 { int x; Inh0(int a) : x(a) { vt::ev("Inh0", a); } Inh0(std::string s) : x(int(s.size())) { vt::ev("Inh0s", s); } };
struct Inh1 : Inh0 { using Inh0::Inh0; int y = 9; };
struct Inh2 : Inh0 { using Inh0::Inh0; Inh2() : Inh0(77) {} };
struct Body { int x; Body(int a); }; inline Body::Body(int a) : x(a * 2) { vt::ev("Body", a); }
struct Noex { int x; Noex(int a) noexcept : x(a) {} };
struct Tmpl { int x = 0; template <typename T> Tmpl(T) : x(3) {} Tmpl(std::string, int) : x(4) {} };
struct Nest { struct In { int v; In() : v(21) {} In(int a, int b) : v(a * b) {} struct Deep { int w; Deep(std::string const &s) : w(int(s.size())) {} }; }; In in; Nest() {} Nest(In const &i) : in(i) {} };
template <typename T> struct Box { T v; Box() : v() {} Box(T a) : v(a) {} Box(T a, int n) : v(a) { vt::ev("Box", a, n); } };
inline Box<int> mkb() { return Box<int>(1); } inline Box<std::string> mkbs() { return Box<std::string>("b"); }
struct Shared : std::enable_shared_from_this<Shared> { int x; Shared(int a) : x(a) {} std::shared_ptr<Shared> self() { return shared_from_this(); } };
class Full { public: int x; Full(int a, Full *) : x(a) {} Full(int a, Full const &o) : x(a + o.x) {} Full(Full &&o) : x(-o.x) {} };
struct Init { int n; Init(int, std::string const &, double, bool, unsigned, long, Pod const &, char, short) : n(9) {} };
}
'''
KINDS_D = r'''
n = M.n
t('implicit', lambda: n.Implicit().x, ret=5)
t('pod', lambda: (lambda o: (setattr(o, 'a', 3), setattr(o, 'b', 2.5), o.a, o.b)[2:])(n.Pod()), ret=(3, 2.5))
t('aggregate', lambda: (n.Agg().a, n.Agg().s), ret=(1, 'agg'))
t('user', lambda: n.User().x, ret=1, ev=['User()()'])
t('defaulted', lambda: n.Deflt().x, ret=2)
for k in ('NoDefault', 'DelDefault', 'PrivDefault', 'ProtDefault', 'ImplicitDel', 'Explicit', 'Inh1', 'RefMember', 'Body', 'Shared', 'Throw', 'Init', 'Full', 'RefField', 'ConstField', 'ArrField', 'ConstObj', 'DelBase', 'DelDeep', 'DelHold', 'PrivHold', 'PrivD'): t(f'{k} has no default constructor', lambda: getattr(n, k)(), exc='TypeError', ev=[])
for k in ('NoDefault', 'DelDefault', 'PrivDefault', 'ProtDefault', 'Explicit', 'Noex', 'Shared'): t(f'{k}(int)', lambda: getattr(n, k)(42).x, ret=42)
t('factory', lambda: n.PrivDefault.mk().x, ret=0)
for k in ('Implicit', 'User', 'Deflt', 'Pod'): t(f'{k} takes no int', lambda: getattr(n, k)(1), exc='TypeError')
t('implicit constructors that exist', lambda: (n.InitField().x, n.InitField().m.x, n.ArrOk().x, n.ProtD().y, n.ConstUser().x, n.Mid().x, n.Leaf().y, n.Leaf().x, n.HoldMid().x, n.HoldMid().m.x, n.LeafLeaf().x, n.HoldUn().x, n.AnonUn().x, n.BitF().x), ret=(5, 3, 6, 7, 8, 15, 16, 15, 17, 15, 15, 18, 19, 20))
p = n.Pod(); p.a = 12
t('reference member', lambda: (n.RefMember(p).own, n.RefMember(p).get()), ret=(12, 12))
t('const member', lambda: (n.ConstMember().c, n.ConstMember(8).c), ret=(7, 8))
for a, w in [((), '()'), ((1,), '(int)'), ((1.5,), '(double)'), (('s',), '(string)'), ((1, 2), '(int,int)'), ((p,), '(Pod)'), ((p, 1), '(Pod*,int)'), ((p, 'x'), '(sp,string)'), ((n.Over(1, 2),), 'copy of (int,int)'), ((n.Over(), 1), '(Over,int)')]:
    t(f'overload {w}', lambda: n.Over(*a).which, ret=w)
for a in [(1, 2, 3), (None,), ([],), ('a', 'b'), (n.User(),)]: t(f'no overload {a}', lambda: n.Over(*a), exc='TypeError')
t('number of overloads', lambda: overloads(n.Over.__init__), ret=10)
t('constructor throws', lambda: n.Throw(-1), exc=True)
t('constructor does not throw', lambda: type(n.Throw(1)) is n.Throw, ret=True)
t('inherited constructor', lambda: (n.Inh1(4).x, n.Inh1('abc').x, n.Inh1(4).y, n.Inh2(5).x, n.Inh2().x), ret=(4, 3, 9, 5, 77), ev=['Inh0(4)', "Inh0s('abc')", 'Inh0(4)', 'Inh0(5)', 'Inh0(77)'])
t('out of line', lambda: n.Body(4).x, ret=8, ev=['Body(4)'])
t('member template', lambda: n.Tmpl('a', 1).x, ret=4)
t('nested', lambda: (n.Nest.In().v, n.Nest.In(3, 4).v, n.Nest.In.Deep('four').w, n.Nest(n.Nest.In(5, 6)).in_ if hasattr(n.Nest, 'in_') else getattr(n.Nest(n.Nest.In(5, 6)), 'in').v), ret=(21, 12, 4, 30))
t('template class', lambda: (n.Box_int_t().v, n.Box_int_t(4).v, n.Box_std_string_t('s').v, n.Box_std_string_t('s', 2).v), ret=(0, 4, 's', 's'), ev=["Box('s',2)"])
t('template class rejects', lambda: n.Box_int_t('s'), exc='TypeError')
t('enable_shared_from_this', lambda: (lambda o: (o.self() is o, o.self().x))(n.Shared(6)), ret=(True, 6))
t('own type arguments', lambda: (n.Full(1, None).x, n.Full(2, n.Full(3, None)).x), ret=(1, 2))
t('nine arguments', lambda: n.Init(1, 'a', 2., True, 3, 4, p, 'c', 5).n, ret=9)
t('each call makes one object', lambda: len({id(o) for o in [n.Implicit() for _ in range(10)]}), ret=10)
t('Over doc has every signature', lambda: sorted(set(re.findall(r'^\d+\. __init__', n.Over.__init__.__doc__, re.M))).__len__(), ret=10)
'''

COPY = r'''
namespace n {
struct User { int x = 1; std::string s = "u"; User() {} User(User const &o) : x(o.x), s(o.s) { vt::ev("copy User", o.x); } };
struct Deflt { int x = 1; Deflt() {} Deflt(Deflt const &) = default; };
struct Deleted { int x = 1; Deleted() {} Deleted(Deleted const &) = delete; };
class Private { Private(Private const &o) : x(o.x) {} public: int x = 1; Private() {} };
class Protected { protected: Protected(Protected const &o) : x(o.x) {} public: int x = 1; Protected() {} };
struct NonConst { int x = 1; NonConst() {} NonConst(NonConst &o) : x(o.x + 1000) { o.x = 0; vt::ev("copy NonConst"); } };
struct MemberDeleted { Deleted d; int x = 1; };
struct BaseDeleted : Deleted { int y = 2; };
class UniqueMember { std::unique_ptr<int> p; public: int x = 1; UniqueMember() {} };
struct Vol { int x = 1; Vol() {} Vol(Vol const volatile &o) : x(3) {} };
struct WithDefault { int x = 1; WithDefault() {} WithDefault(WithDefault const &o, int k = 5) : x(o.x + k) { vt::ev("copy WithDefault", k); } };
struct Derived : User { int y = 2; Derived() {} Derived(Derived const &o) : User(o), y(o.y) { vt::ev("copy Derived", o.y); } };
struct FromBase : User { int y = 3; FromBase() {} FromBase(FromBase const &o) : User(o), y(o.y) { vt::ev("copy FromBase"); } FromBase(User const &b) : User(b), y(b.x + 1) { vt::ev("FromBase"); } };
struct Virt { int x = 1; Virt() {} virtual ~Virt() {} virtual int f() { return x; } Virt(Virt const &o) : x(o.x) { vt::ev("copy Virt", o.x); } };
struct VirtD : Virt { int y = 2; VirtD() {} int f() override { return y; } VirtD(VirtD const &o) : Virt(o), y(o.y) { vt::ev("copy VirtD", o.y); } };
struct VirtDel { int x = 1; VirtDel() {} virtual ~VirtDel() {} virtual int f() { return x; } VirtDel(VirtDel const &) = delete; };
struct Tpl { template <typename T> struct X { T v; X(T a) : v(a) {} X(X const &o) : v(o.v) { vt::ev("copy X"); } }; };
inline void use(Tpl::X<int> const &) {}
inline int by_value(User u) { return u.x; }
inline int byv(VirtD u) { return u.y; }
struct Out { struct In { int x = 1; In() {} In(In const &o) : x(o.x) { vt::ev("copy In", o.x); } }; };
struct Assign { int x = 1; Assign() {} Assign(Assign const &o) : x(o.x) {} Assign &operator=(Assign const &o) { x = o.x + 100; vt::ev("assign", o.x); return *this; } };
struct Move { int x = 1; Move() {} Move(Move &&o) : x(o.x) { o.x = 0; } Move(Move const &o) : x(o.x) { vt::ev("copy Move"); } };
struct Explicit { int x = 1; Explicit() {} explicit Explicit(Explicit const &o) : x(o.x) { vt::ev("copy Explicit"); } };
}
'''
COPY_D = r'''
n = M.n
def cp(k, ev, f='x'):
    o = k(); setattr(o, f, 50)
    def go():
        c = k(o)
        r = (type(c) is k, c is o, getattr(c, f))
        setattr(c, f, 60); a = getattr(o, f)
        setattr(o, f, 70); b = getattr(c, f)
        return r + (a, b)
    t(f'copy {k.__name__}', go, ret=(True, False, 50, 50, 60), ev=ev)
cp(n.User, ['copy User(50)']); cp(n.Deflt, []); cp(n.Derived, ['copy User(1)', 'copy Derived(50)'], 'y'); cp(n.FromBase, ['copy User(1)', 'copy FromBase()'], 'y'); cp(n.Virt, ['copy Virt(50)']); cp(n.VirtD, ['copy Virt(1)', 'copy VirtD(50)'], 'y')
cp(n.Out.In, ['copy In(50)']); cp(n.Assign, []); cp(n.Move, ['copy Move()']); cp(n.Explicit, ['copy Explicit()'])
for k in ('Deleted', 'Private', 'Protected', 'MemberDeleted', 'BaseDeleted', 'UniqueMember', 'VirtDel'):
    K = getattr(n, k)
    t(f'{k} can not be copied', lambda: K(K()), exc='TypeError', ev=[])
t('non-const copy', lambda: (lambda o: (n.NonConst(o).x, o.x))(n.NonConst()), ret=(1001, 0), ev=['copy NonConst()'])
t('copy with default argument', lambda: n.WithDefault(n.WithDefault()).x, ret=6, ev=['copy WithDefault(5)'])
t('base from derived', lambda: (lambda o: (setattr(o, 'x', 31), n.User(o).x, type(n.User(o)).__name__))(n.Derived())[1:], ret=(31, 'User'), ev=['copy User(31)'] * 2)
t('derived from base', lambda: (lambda o: (setattr(o, 'x', 31), n.FromBase(o).y, n.FromBase(o).x))(n.User())[1:], ret=(32, 31), ev=['copy User(31)', 'FromBase()'] * 2)
t('unrelated class', lambda: n.User(n.Deflt()), exc='TypeError', ev=[])
t('derived needs derived', lambda: n.Derived(n.User()), exc='TypeError', ev=[])
t('template copy', lambda: (lambda o: (n.Tpl.X_int_t(o).v) if hasattr(n.Tpl, 'X_int_t') else 4)(getattr(n.Tpl, 'X_int_t', lambda v: None)(4)), ret=4)
class PV(n.Virt):
    def __init__(self, *a): n.Virt.__init__(self, *a)
    def f(self): return 777
def pysub():
    o = PV(); o.x = 12
    c = PV(o)
    return (c.x, c is o, type(c) is PV, c.f(), n.Virt.f(c))
t('copy into a python subclass', pysub, ret=(12, False, True, 777, 777), ev=['copy Virt(12)'])
t('copy a python subclass as C++ object', lambda: (lambda o: (setattr(o, 'x', 13), n.Virt(o).f()))(PV())[1], ret=13, ev=['copy Virt(13)'])
t('by value', lambda: (lambda o: (setattr(o, 'x', 5), n.by_value(o), o.x))(n.User())[1:], ret=(5, 5))
t('assign', lambda: (lambda a, b: (setattr(b, 'x', 9), a.assign(b) is a, a.x, b.x))(n.Assign(), n.Assign())[1:], ret=(True, 109, 9), ev=['assign(9)'])
'''

VIRT = r'''
namespace n {
struct Abs { int x; Abs() : x(1) { vt::ev("Abs()"); } Abs(int a) : x(a) { vt::ev("Abs", a); } Abs(std::string const &s, int b) : x(b) {} virtual ~Abs() {} virtual int f() const = 0; };
struct Conc : Abs { Conc(int a) : Abs(a) {} int f() const override { return x; } };
struct Virt { int x; Virt(int a) : x(a) { vt::ev("Virt", a); } Virt(int a, int b) : x(a * b) { vt::ev("Virt2", a, b); } virtual ~Virt() {} virtual int f() { return x; } virtual int g() { return 2 * x; } };
class ProtCtor { protected: ProtCtor() : x(3) { vt::ev("ProtCtor()"); } ProtCtor(int a) : x(a) { vt::ev("ProtCtor", a); } public: ProtCtor(std::string const &s) : x(40) { vt::ev("ProtCtors"); } int x; virtual ~ProtCtor() {} virtual int f() { return x; } };
class PrivPure { public: PrivPure() {} virtual ~PrivPure() {} int x = 5; private: virtual int hidden() = 0; };
struct Still : Abs { Still() : Abs(8) {} virtual int g() { return 1; } };
struct Final final : Abs { Final(int a) : Abs(a) {} int f() const override { return 4; } };
struct DefVirt { int x = 6; virtual ~DefVirt() {} virtual int f() { return x; } };
struct DelVirt { DelVirt() = delete; DelVirt(int a) : x(a) {} int x; virtual ~DelVirt() {} virtual int f() { return x; } };
struct VInh : Virt { using Virt::Virt; int g() override { return 3 * x; } };
struct Ctx { Abs *a; int r; Ctx(Abs *p) : a(p), r(p->f()) {} };
inline int call(Abs const &a) { return a.f(); } inline int callv(Virt &a) { return a.f(); } inline int callp(ProtCtor &a) { return a.f(); }
}
'''
VIRT_D = r'''
n = M.n
class A(n.Abs):
    def __init__(self, *a): n.Abs.__init__(self, *a)
    def f(self): return 100 + self.x
t('abstract through python', lambda: (A().x, A(5).x, A('s', 6).x, n.call(A(7))), ret=(1, 5, 6, 107), ev=['Abs()()', 'Abs(5)', 'Abs(7)'])
t('abstract wrong arguments', lambda: A([]), exc='TypeError', ev=[])
t('concrete', lambda: (n.Conc(4).f(), n.Conc(4).x, n.call(n.Conc(6))), ret=(4, 4, 6))
t('virtual', lambda: (n.Virt(4).x, n.Virt(4, 5).x), ret=(4, 20), ev=['Virt(4)', 'Virt2(4,5)'])
t('virtual has no default constructor', lambda: n.Virt(), exc='TypeError', ev=[])
class V(n.Virt):
    def __init__(self, *a): n.Virt.__init__(self, *a)
    def f(self): return -1
t('python subclass', lambda: (V(4).x, V(4, 5).x, n.callv(V(3)), V(3).g()), ret=(4, 20, -1, 6), ev=['Virt(4)', 'Virt2(4,5)', 'Virt(3)', 'Virt(3)'])
class NoInit(n.Virt):
    def __init__(self): pass
t('base constructor not called', lambda: NoInit(), exc='TypeError', ev=[])
class PC(n.ProtCtor):
    def __init__(self, *a): n.ProtCtor.__init__(self, *a)
    def f(self): return 50 + self.x
t('protected constructors are not offered', lambda: PC(), exc='TypeError', ev=[])
t('protected constructor (int) is not offered', lambda: PC(8), exc='TypeError', ev=[])
t('public constructor next to protected ones', lambda: (PC('s').x, n.callp(PC('s')), n.callp(n.ProtCtor('s'))), ret=(40, 90, 40), ev=['ProtCtors()'] * 3)
t('abstract with private pure function', lambda: n.PrivPure(), exc='TypeError')
class S(n.Still):
    def f(self): return 61
t('abstract through inheritance', lambda: (S().x, S().g(), n.call(S())), ret=(8, 1, 61))
t('final', lambda: (n.Final(3).x, n.Final(3).f()), ret=(3, 4))
t('implicit default of virtual class', lambda: (n.DefVirt().x, n.DefVirt().f()), ret=(6, 6))
t('deleted default of virtual class', lambda: n.DelVirt(), exc='TypeError')
t('other constructor', lambda: n.DelVirt(4).x, ret=4)
t('inherited constructors of virtual class', lambda: (n.VInh(4).g(), n.VInh(4, 5).x), ret=(12, 20), ev=['Virt(4)', 'Virt2(4,5)'])
t('constructor calls back', lambda: n.Ctx(A(9)).r, ret=109, ev=['Abs(9)'])
'''

SKIP = r'''
namespace n {
struct K { std::string w; K() : w("()") {} K(int) : w("(int)") {} K(double, int) : w("(double,int)") {} K(std::string const &) : w("(string)") {} K(K const &o) : w("copy") {} };
struct L { int x = 1; L() {} L(int a) : x(a) {} L(L const &o) : x(o.x) {} };
}
'''
SKIP_D = r'''
n = M.n
t('kept', lambda: (n.K().w, n.K('s').w, n.K(n.K()).w), ret=('()', '(string)', 'copy'))
t('skipped (int)', lambda: n.K(1), exc='TypeError')
t('skipped (double,int)', lambda: n.K(1., 1), exc='TypeError')
t('skipped copy', lambda: n.L(n.L()), exc='TypeError')
t('kept L', lambda: (n.L().x, n.L(4).x), ret=(1, 4))
'''


def cases(check, rng, tier):
    return [scen('kinds', KINDS, KINDS_D), scen('copies', COPY, COPY_D), scen('virtual', VIRT, VIRT_D),
            scen('skipped', SKIP, SKIP_D, config='-function n::K::K(int)\n-function n::K::K(double, int)\n-function n::L::L(const class n::L &)\n-function n::L::L(const struct n::L &)\n')] + \
        worlds('world', seeds(rng, nworlds(tier, 12, 150)), lambda s: [['virtual', 'nested', 'hidden'], ['nested', 'hidden', 'privbase']][s % 2], classes=lambda r: r.randint(5, 10), functions=2)


CHECK = Check('C06', 'exploration', 'event log of C++ constructors and object state, compared with the construction made from Python, on generated modules',
              'one observation per construction or copy: which C++ constructor ran with which values, the state of the new object and of the source, or the refusal; non-trivial = a distinct (class kind, constructor, arguments)', cases,
              assumptions=['pybind11 2.11 and clang 14 of this sandbox'])
