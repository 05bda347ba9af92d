"""C09: public data members are attributes that share storage with the C++ object."""
from ..core import Check
from ..scen import scen, worlds, seeds, nworlds

# type, initialiser, python initial, python new value, C++ log of new value, refused value
TY = [('int', '5', '5', '-2147483648', '-2147483648', '2**31'), ('unsigned', '6', '6', '4294967295', '4294967295', '-1'), ('long', '7', '7', '-2**63', str(-2**63), '2**63'), ('unsigned long', '8', '8', '2**64-1', str(2**64 - 1), '2**64'), ('short', '-9', '-9', '32767', '32767', '32768'),
      ('unsigned char', '10', '10', '255', '255', '256'), ('signed char', '-11', '-11', '127', '127', '128'), ('bool', 'true', 'True', 'False', 'false', '"x"'), ('double', '1.5', '1.5', '-2.25', '-2.25', '"x"'), ('float', '0.5', '0.5', '4.75', '4.75', '"x"'), ('std::string', '"init"', '"init"', '"new \\u00e9"', "'new \u00e9'", '5'),
      ('::n::E', '::n::E::y', 'M.n.E.y', 'M.n.E.x', 'e3', '3'), ('::n::U', '::n::ub', 'M.n.ub', 'M.n.ua', 'e1', '"x"'), ('char', "'a'", '"a"', '"z"', '122', '"zz"'), ('long long', '12', '12', '2**62', str(2**62), '2**63'), ('std::size_t', '13', '13', '14', '14', '-1'), ('std::pair<int, std::string>', 'std::pair<int, std::string>(1, "p")', '(1, "p")', '(2, "q")', None, '5')]


def grid():
    h = '#include <utility>\n#include <cstdint>\nnamespace n {\nenum class E { x = 3, y = 9 }; enum U { ua = 1, ub = 2 };\n'
    f = g = pf = ''
    d = 'n = M.n\no, p = n.F(), n.F()\n'
    for i, (t, init, py, new, log, bad) in enumerate(TY):
        f += f'{t} f{i} = {init}; const {t} c{i} = {init}; mutable {t} u{i} = {init}; {t} volatile v{i};\n' if 0 else f'{t} f{i} = {init}; const {t} c{i} = {init}; mutable {t} u{i} = {init};\n'
        pf += f'private: {t} pr{i} = {init}; protected: {t} po{i} = {init}; public:\n'
        if log: g += f'void g{i}() const {{ vt::ev("g{i}", f{i}, u{i}); }}\n'
        d += f't("{t} initial", lambda: (o.f{i} == {py}, o.c{i} == {py}, o.u{i} == {py}, type(o.f{i}) is type({py})), ret=(True,) * 4)\n'
        d += f't("{t} write", lambda: (setattr(o, "f{i}", {new}), o.f{i} == {new}, o.c{i} == {py}, o.u{i} == {py}, p.f{i} == {py}, n.F().f{i} == {py})[1:], ret=(True,) * 5)\n'
        d += f't("{t} mutable", lambda: (setattr(o, "u{i}", {new}), o.u{i} == {new}, o.f{i} == {new})[1:], ret=(True,) * 2)\n'
        if log: d += f't("{t} seen by C++", lambda: o.g{i}(), ev=[{f"g{i}({log},{log})"!r}])\n'
        d += f't("{t} const", lambda: setattr(o, "c{i}", {new}), exc="AttributeError")\nt("{t} const kept", lambda: o.c{i} == {py}, ret=True)\n'
        d += f't("{t} refuses", lambda: setattr(o, "f{i}", {bad}), exc=True)\nt("{t} kept", lambda: o.f{i} == {new}, ret=True)\n'
        d += f't("{t} no delete", lambda: delattr(o, "f{i}"), exc="AttributeError")\n'
        d += f't("{t} descriptor", lambda: (type(n.F.f{i}).__name__, type(n.F.c{i}).__name__), ret=("property", "property"))\n'
    d += 't("exact attributes", lambda: names(n.F), ret=sorted(%r))\n' % ([f'{k}{i}' for i in range(len(TY)) for k in 'fcu'] + [f'g{i}' for i, x in enumerate(TY) if x[4]])
    h += f'struct F {{\n{f}{pf}{g}}};\n}}\n'
    return h, d


OBJ = r'''
#include <atomic>
namespace n {
struct K { int v; K(int a = 1) : v(a) {} K(K const &o) : v(o.v) { vt::ev("K copy"); } K &operator=(K const &o) { v = o.v; vt::ev("K assign", v); return *this; } };
struct DelAssign { int v = 2; DelAssign() {} DelAssign(DelAssign const &) = delete; DelAssign &operator=(DelAssign const &) = delete; };
class PrivAssign { PrivAssign &operator=(PrivAssign const &) { return *this; } public: int v = 3; };
struct ConstIn { const int c = 4; int v = 4; };
struct RefIn { int own = 5; int &r = own; int v = 5; };
struct HasDel { DelAssign d; int v = 6; };
struct BaseDel : DelAssign { };
struct MoveOnly { int v = 7; MoveOnly() {} MoveOnly(MoveOnly &&o) {} MoveOnly &operator=(MoveOnly &&) { return *this; } };
struct Arr { K ks[2]; int v = 8; };
typedef DelAssign Del2; template <typename T> struct Box { T t; int v = 9; };
struct H {
	K k; const K ck{11}; K mutable mk{12};
	DelAssign d1; ::n::DelAssign d2; Del2 d3; PrivAssign d4; ConstIn d5; RefIn d6; HasDel d7; BaseDel d8; MoveOnly d9; Box<K> b1; Box<DelAssign> b2; Arr ar;
	std::shared_ptr<K> sp; std::shared_ptr<K> sq = std::make_shared<K>(13); const std::shared_ptr<K> csp = std::make_shared<K>(14);
	struct In { int i = 15; } in_; struct { int an = 16; } anon;
	K *raw = nullptr; int arr[3] = {1, 2, 3}; int &ref = in_.i; int bits : 5; unsigned : 3; int (*fp)(int) = nullptr; int K::*mp = nullptr; const char *cs = "c"; void *vp = nullptr;
	static int st; static const int sc = 17; static constexpr int sx = 18; int last = 19;
	int sum() const { vt::ev("sum", k.v, mk.v, d1.v, b1.t.v, last); return k.v; } unsigned long addr() const { return (unsigned long)&k; } unsigned long spaddr() const { return (unsigned long)sp.get(); }
	H() : bits(3) {}
};
inline unsigned long kaddr(K const &k) { return (unsigned long)&k; }
struct Base { int b = 21; int hid = 22; protected: int lifted = 23; int notlifted = 24; const int clifted = 25; public: int ovr = 26; };
struct Der : Base { int d = 31; std::string hid = "der"; using Base::lifted; using Base::clifted; int get() { return lifted; } int baseovr() { return Base::hid; } };
union Un { int i; float f; unsigned char c; };
struct WithAnon { int tag = 41; union { int ai; unsigned au; }; struct { int sx; double sy; }; struct Named { int z = 42; } named; int after = 43; WithAnon() : ai(-1), sx(44), sy(4.5) {} };
template <typename T> struct Tm { T val; const T cval; T *ptr; Tm() : val(), cval(), ptr(nullptr) {} };
inline Tm<int> mkt() { return Tm<int>(); } inline Tm<std::string> mks() { return Tm<std::string>(); } inline Box<K> mkb() { return Box<K>(); }
struct Names { int lambda = 1, from = 2, None = 3, self = 4, _under = 5, Upper = 6, def_ = 7, a = 8, b = 9, c = 10; };
struct Big { int a[100]; long long m1 = 1; char pad[1000]; double m2 = 2.5; };
struct Opaque; struct HasOpaque { Opaque *o = nullptr; int v = 51; };
struct Cyc { std::shared_ptr<Cyc> next; int v = 52; };
struct CV { int const volatile cv = 61; int x = 62; };
}
'''
OBJ_D = r'''
n = M.n
h = n.H()
t('object member shares storage', lambda: (n.kaddr(h.k) == h.addr(), setattr(h.k, 'v', 101), h.k.v, h.sum()), ret=(True, None, 101, 101), ev=['sum(101,12,2,1,19)'])
def asg():
    k = n.K(55); h.k = k; k.v = 56
    return (h.k.v, h.k is k, n.kaddr(h.k) == h.addr())
t('object member is assigned by copy', asg, ret=(55, False, True), ev=['K assign(55)'])
t('wrong class', lambda: setattr(h, 'k', n.DelAssign()), exc='TypeError')
t('None is no object', lambda: setattr(h, 'k', None), exc=True)
t('const object', lambda: setattr(h, 'ck', n.K(1)), exc='AttributeError')
t('const object reads', lambda: (h.ck.v, h.mk.v), ret=(11, 12))
t('mutable object', lambda: (setattr(h, 'mk', n.K(60)), h.mk.v)[1], ret=60)
for f, v in [('d1', 2), ('d2', 2), ('d3', 2), ('d4', 3), ('d5', 4), ('d6', 5), ('d7', 6), ('d8', 2), ('d9', 7), ('b2', 9)]:
    t(f'{f} can be read', lambda: getattr(h, f).v, ret=v)
    t(f'{f} can not be assigned', lambda: setattr(h, f, getattr(n.H(), f)), exc='AttributeError')
    t(f'{f} members can be changed', lambda: (setattr(getattr(h, f), 'v', 77), getattr(h, f).v, getattr(n.H(), f).v)[1:], ret=(77, v))
for f in ('b1', 'ar'): t(f'{f} can be assigned', lambda: (lambda o: (setattr(getattr(o, f), 'v', 88), setattr(h, f, getattr(o, f)), getattr(h, f).v))(n.H())[2], ret=88)
def sps():
    k = n.K(70); r = [h.sp]; h.sp = k; r += [h.sp is k, h.spaddr() == n.kaddr(k)]; h.sp.v = 71; r.append(k.v); h.sp = None; r += [h.sp, h.spaddr()]; h.sp = h.sq; r.append(h.sp is h.sq); return r
t('shared_ptr member', sps, ret=[None, True, True, 71, None, 0, True])
t('const shared_ptr', lambda: setattr(h, 'csp', None), exc='AttributeError')
t('const shared_ptr read', lambda: (h.csp.v, h.sq.v), ret=(14, 13))
t('nested type member', lambda: (h.in_.i, setattr(h.in_, 'i', 66), h.in_.i, type(h.in_) is n.H.In), ret=(15, None, 66, True))
t('static members are not instance attributes', lambda: [f for f in ('st', 'sc', 'sx') if f in n.H.__dict__ and isinstance(n.H.__dict__[f], property)], ret=[])
t('not bound', lambda: [f for f in ('raw', 'arr', 'ref', 'bits', 'fp', 'vp') if hasattr(n.H, f)], ret=[])
t('last', lambda: (h.last, setattr(h, 'last', 99), h.last), ret=(19, None, 99))
d, b = n.Der(), n.Base()
t('inherited', lambda: (d.b, d.d, setattr(d, 'b', 121), d.b, n.Base.b.fget(d), b.b), ret=(21, 31, None, 121, 121, 21))
t('hidden by derived', lambda: (d.hid, d.baseovr(), n.Base.hid.fget(d)), ret=('der', 22, 22))
t('lifted', lambda: (d.lifted, setattr(d, 'lifted', 123), d.lifted, d.get(), d.clifted), ret=(23, None, 123, 123, 25))
t('lifted const', lambda: setattr(d, 'clifted', 1), exc='AttributeError')
t('not lifted', lambda: (hasattr(d, 'notlifted'), hasattr(b, 'lifted'), hasattr(b, 'clifted')), ret=(False, False, False))
t('names', lambda: names(n.Base), ret=['b', 'hid', 'ovr'])
u = n.Un()
t('union', lambda: (setattr(u, 'i', 0x41414141), u.c, setattr(u, 'c', 0x42), u.i), ret=(None, 0x41, None, 0x41414142))
a = n.WithAnon()
t('anonymous union', lambda: (a.ai, a.au, setattr(a, 'au', 7), a.ai), ret=(-1, 4294967295, None, 7))
t('anonymous struct', lambda: (a.sx, a.sy, setattr(a, 'sx', 8), a.sx, a.sy, a.tag, a.after, a.named.z), ret=(44, 4.5, None, 8, 4.5, 41, 43, 42))
ti, ts = n.Tm_int_t(), n.Tm_std_string_t()
t('template', lambda: (ti.val, setattr(ti, 'val', 4), ti.val, ti.cval, ts.val, setattr(ts, 'val', 'x'), ts.val, hasattr(ti, 'ptr')), ret=(0, None, 4, 0, '', None, 'x', False))
t('template const', lambda: setattr(ti, 'cval', 4), exc='AttributeError')
t('template type', lambda: setattr(ti, 'val', 'x'), exc='TypeError')
t('odd names', lambda: [getattr(n.Names(), f) for f in ('lambda', 'from', 'None', 'self', '_under', 'Upper', 'def_', 'a', 'b', 'c')], ret=list(range(1, 11)))
t('each name has its own storage', lambda: (lambda o: ([setattr(o, f, 100 + i) for i, f in enumerate(names(n.Names))], [getattr(o, f) for f in names(n.Names)])[1])(n.Names()), ret=list(range(100, 110)))
t('offsets', lambda: (n.Big().m1, n.Big().m2), ret=(1, 2.5))
t('opaque', lambda: n.HasOpaque().v, ret=51)
def cyc():
    a, b = n.Cyc(), n.Cyc(); a.next = b; b.v = 9
    return (a.next is b, a.next.v, b.next)
t('own class', cyc, ret=(True, 9, None))
t('const volatile', lambda: (n.CV().x, names(n.CV)[-1]), ret=(62, 'x'))
def keepalive():
    k = n.H().k; gc.collect(); return k.v
t('member keeps its owner alive', keepalive, ret=1)
'''

SKIP = 'namespace n { struct A { int keep = 1; int drop = 2; int drops = 3; }; struct B { int drop = 4; }; struct C : A { int x = 5; }; struct P { protected: int lift = 6, lift2 = 7; }; struct Q : P { using P::lift; using P::lift2; }; }\n'
SKIP_D = '''t('skipped field', lambda: (names(M.n.A), names(M.n.B), M.n.C().keep, hasattr(M.n.C(), 'drop'), names(M.n.Q), M.n.B().drop, M.n.A().drops), ret=(['drops', 'keep'], ['drop'], 1, False, ['lift2'], 4, 3))
'''


def cases(check, rng, tier):
    g, gd = grid()
    return [scen('grid', g, gd), scen('objects', OBJ.replace(' int (*fp)(int) = nullptr; int K::*mp = nullptr; const char *cs = "c";', ' int (*fp)(int) = nullptr;').replace(' struct { int an = 16; } anon;', ''), OBJ_D), scen('skipped', SKIP, SKIP_D, config='-field n::A::drop\n-field n::P::lift\n')] + \
        worlds('world', seeds(rng, nworlds(tier, 10, 150)), lambda s: [['virtual', 'nested', 'hidden'], ['nested', 'hidden', 'privbase']][s % 2], classes=lambda r: r.randint(5, 10), functions=2)


CHECK = Check('C09', 'exploration', 'Python reads and writes of attributes cross-checked with what C++ code reads from the same object',
              'one observation per read, write or refused access of a data member; non-trivial = a distinct (member type, qualifier, access path)', cases,
              assumptions=['pybind11 2.11 and clang 14 of this sandbox'])
