"""C07: a Python subclass that overrides a virtual function is seen by C++; everything else keeps the C++ behaviour."""
from ..core import Check
from ..scen import scen, worlds, seeds, nworlds

# (name, C++ type, C++ value, how C++ logs it, python value returned by overrides, its log)
RETS = [('v', 'void', '', None, 'None', None), ('i', 'int', '11', '{}', '-5', '-5'), ('l', 'long', '12', '{}', '2**40', str(2**40)), ('b', 'bool', 'true', '{}', 'False', 'false'), ('d', 'double', '1.5', '{}', '2.5', '2.5'),
        ('u', 'unsigned char', '7', '{}', '200', '200'), ('s', 'std::string', '"cpp"', '{}', '"py"', "'py'"), ('sr', 'std::string const &', 'S()', '{}', '"py2"', "'py2'"), ('e', 'E', 'E::y', '{}', 'M.n.E.x', 'e3'), ('k', 'K', 'K(21)', '{}.v', 'M.n.K(31)', '31'),
        ('kr', 'K &', 'KS()', '{}.v', 'keep(M.n.K(32))', '32'), ('kc', 'K const &', 'KS()', '{}.v', 'keep(M.n.K(33))', '33'), ('kp', 'K *', '&KS()', '{}->v', 'keep(M.n.K(34))', '34'), ('kcp', 'K const *', '&KS()', '{}->v', 'keep(M.n.K(35))', '35'),
        ('ks', 'std::shared_ptr<K>', 'KP()', '{}->v', 'M.n.K(36)', '36'), ('p', 'std::pair<int, int>', 'std::pair<int, int>(1, 2)', '{}.second', '(3, 4)', '4'), ('c', "char", "'a'", 'int({})', '"z"', '122'), ('ci', 'const int', '13', '{}', '-6', '-6'), ('ul', 'unsigned long long', '14', '{}', '2**63', str(2**63))]
# (C++ parameter, C++ argument, how C++ logs it, log, python check of the argument)
PARS = [('int p', '5', 'p', '5', 'a == 5'), ('double p', '2.5', 'p', '2.5', 'a == 2.5'), ('std::string const &p', 'std::string("x,y")', 'p', "'x,y'", 'a == "x,y"'), ('std::string p', 'std::string("q")', 'p', "'q'", 'a == "q"'), ('bool p', 'true', 'p', 'true', 'a is True'),
        ('E p', 'E::x', 'p', 'e3', 'a == M.n.E.x'), ('K p', 'K(41)', 'p.v', '41', 'a.v == 41'), ('K const &p', 'KS()', 'p.v', '21', 'a.v == 21'), ('K &p', 'KS()', 'p.v', '21', 'a.v == 21 and a.addr() == M.n.ks_addr()'), ('K *p', '&KS()', 'p->v', '21', 'a.v == 21 and a.addr() == M.n.ks_addr()'), ('K const *p', '&KS()', 'p->v', '21', 'a.v == 21'),
        ('std::shared_ptr<K> p', 'KP()', 'p->v', '22', 'a.v == 22'), ('std::shared_ptr<K> const &p', 'KP()', 'p->v', '22', 'a.v == 22'), ('K *p', '(K *)nullptr', '(p ? 1 : 0)', '0', 'a is None'), ('const char *p', '"lit"', 'p', "'lit'", 'a == "lit"'), ('unsigned long p', '18446744073709551615ul', 'p', str(2**64 - 1), 'a == 2**64 - 1'), ('const int p', '6', 'p', '6', 'a == 6'), ('std::pair<int, std::string> const &p', 'std::pair<int, std::string>(1, "z")', 'p.second', "'z'", 'a == (1, "z")')]
HEAD = '''#include <utility>
namespace n {
enum class E { x = 3, y = 9 };
struct K { int v; K(int a) : v(a) {} K(K const &o) : v(o.v) {} unsigned long addr() const { return (unsigned long)this; } };
inline K &KS() { static K k(21); return k; } inline std::shared_ptr<K> KP() { static auto k = std::make_shared<K>(22); return k; } inline std::string const &S() { static std::string s("cpp"); return s; } inline unsigned long ks_addr() { return (unsigned long)&KS(); }
'''


def grid():
    h, d, calls = HEAD, '', ''
    vs, drv = '', ''
    pyc = ''
    for i, (nm, ty, val, lg, py, pl) in enumerate(RETS):
        for c in ('', ' const'):
            f = f'r_{nm}{"_c" if c else ""}'
            vs += f'virtual {ty} {f}(){c} {{ vt::ev("{f}"); return {val}; }}\n' if ty != 'void' else f'virtual void {f}(){c} {{ vt::ev("{f}"); }}\n'
            calls += f'inline void call_{f}(V{c} &o) {{ {"o." + f + "(); vt::ev(" + chr(34) + "ret" + chr(34) + ");" if ty == "void" else f"auto &&r = o.{f}(); vt::ev({chr(34)}ret{chr(34)}, {lg.format(chr(114))});"} }}\n'
            pyc += f'    def {f}(self):\n        plog.append("{f}")\n        return {py}\n'
            cv = {'v': None, 'i': '11', 'l': '12', 'b': 'true', 'd': '1.5', 'u': '7', 's': "'cpp'", 'sr': "'cpp'", 'e': 'e9', 'k': '21', 'kr': '21', 'kc': '21', 'kp': '21', 'kcp': '21', 'ks': '22', 'p': '2', 'c': '97', 'ci': '13', 'ul': '14'}[nm]
            drv += f't("{ty}{c}: C++ object", lambda: n.call_{f}(n.V()), ev=["{f}()", {"ret(" + (cv or "") + ")"!r}])\n'
            drv += f't("{ty}{c}: no override", lambda: n.call_{f}(Q()), ev=["{f}()", {"ret(" + (cv or "") + ")"!r}])\n'
            drv += f'plog.clear()\nt("{ty}{c}: override", lambda: (n.call_{f}(P()), list(plog))[1], ret=["{f}"], ev=[{"ret(" + (pl or "") + ")"!r}])\n'
    for i, (p, arg, lg, log, chk) in enumerate(PARS):
        for c in ('', ' const'):
            f = f'p_{i}{"c" if c else ""}'
            vs += f'virtual int {f}({p}){c} {{ vt::ev("{f}", {lg}); return {i}; }}\n'
            calls += f'inline int call_{f}(V{c} &o) {{ return o.{f}({arg}); }}\n'
            pyc += f'    def {f}(self, a):\n        plog.append(("{f}", {chk}))\n        return {100 + i}\n'
            drv += f't("({p}){c}: C++ object", lambda: n.call_{f}(n.V()), ret={i}, ev=[{f"{f}({log})"!r}])\n'
            drv += f't("({p}){c}: no override", lambda: n.call_{f}(Q()), ret={i}, ev=[{f"{f}({log})"!r}])\n'
            drv += f'plog.clear()\nt("({p}){c}: override", lambda: (n.call_{f}(P()), list(plog)), ret=({100 + i}, [("{f}", True)]), ev=[])\n'
    for k in range(0, 9):
        ps = ', '.join(f'int a{j}' for j in range(k))
        ls = ''.join(f', a{j}' for j in range(k))
        vs += f'virtual int m{k}({ps}) {{ vt::ev("m{k}"{ls}); return {k}; }}\n'
        calls += f'inline int call_m{k}(V &o) {{ return o.m{k}({", ".join(str(j + 1) for j in range(k))}); }}\n'
        pyc += f'    def m{k}(self, *a):\n        plog.append(("m{k}", a))\n        return {200 + k}\n'
        a = ','.join(str(j + 1) for j in range(k))
        drv += f't("{k} parameters: no override", lambda: (n.call_m{k}(n.V()), n.call_m{k}(Q())), ret=({k}, {k}), ev=["m{k}({a})"] * 2)\n'
        drv += f'plog.clear()\nt("{k} parameters: override", lambda: (n.call_m{k}(P()), list(plog)), ret=({200 + k}, [("m{k}", {tuple(range(1, k + 1))!r})]), ev=[])\n'
    h += f'struct V {{\nvirtual ~V() {{}}\n{vs}}};\n{calls}}}\n'
    d = f'n = M.n\nplog, kept = [], []\ndef keep(o):\n    kept.append(o)\n    return o\nclass Q(n.V): pass\nclass P(n.V):\n{pyc}' + drv
    return h, d


SHAPE = r'''
#include <stdexcept>
namespace n {
struct Base {
	virtual ~Base() {}
	virtual int pub() { vt::ev("Base::pub"); return 1; }
	virtual int pure() = 0;
	virtual int purec(int a) const = 0;
	virtual void fin() final { vt::ev("Base::fin"); }
	virtual int ne(int a) noexcept { vt::ev("Base::ne"); return a; }
	virtual int nef(int a) noexcept(false) { vt::ev("Base::nef"); return a; }
	int tmpl(int a) { return prot(a) + priv(a); }
	int call_protc() const { return protc(); }
	virtual int over(int a) { vt::ev("over(int)", a); return 11; }
	virtual int over(std::string const &a) { vt::ev("over(string)", a); return 12; }
	virtual int over(int a, int b) { vt::ev("over(int,int)", a, b); return 13; }
	virtual int twin(int a) { vt::ev("twin", a); return 14; }
	virtual int twin(int a) const { vt::ev("twin const", a); return 15; }
	virtual int operator()(int a) { vt::ev("call", a); return 16; }
	virtual int operator[](int a) { vt::ev("index", a); return 17; }
	virtual Base &self() { vt::ev("self"); return *this; }
	int nonvirtual() { vt::ev("nonvirtual"); return pub(); }
	static int stat() { return 18; }
protected:
	virtual int prot(int a) { vt::ev("Base::prot", a); return a; }
	virtual int protc() const { vt::ev("Base::protc"); return 19; }
private:
	virtual int priv(int a) { vt::ev("Base::priv", a); return 1000 * a; }
};
struct Mid : Base {
	int pure() override { vt::ev("Mid::pure"); return 21; }
	int over(int a) override { vt::ev("Mid::over(int)", a); return 22; }
	using Base::over;
	virtual int mid() { vt::ev("Mid::mid"); return 23; }
};
struct Leaf : Mid {
	int purec(int a) const override { vt::ev("Leaf::purec", a); return 31; }
	int pub() override { vt::ev("Leaf::pub"); return 32; }
	int mid() final { vt::ev("Leaf::mid"); return 33; }
	virtual int leaf(int a) { vt::ev("Leaf::leaf", a); return 34; }
};
struct Last final : Leaf { int leaf(int a) override { vt::ev("Last::leaf", a); return 41; } };
inline int c_pub(Base &b) { return b.pub(); } inline int c_pure(Base &b) { return b.pure(); } inline int c_purec(Base const &b, int a) { return b.purec(a); } inline void c_fin(Base &b) { b.fin(); } inline int c_ne(Base &b, int a) { return b.ne(a); } inline int c_nef(Base &b, int a) { return b.nef(a); }
inline int c_over1(Base &b) { return b.over(1); } inline int c_over2(Base &b) { return b.over("s"); } inline int c_over3(Base &b) { return b.over(1, 2); } inline int c_twin(Base &b) { return b.twin(5); } inline int c_twinc(Base const &b) { return b.twin(6); } inline int c_call(Base &b) { return b(7); } inline int c_index(Base &b) { return b[8]; }
inline bool c_self(Base &b) { return &b.self() == &b; } inline int c_mid(Mid &b) { return b.mid(); } inline int c_leaf(Leaf &b) { return b.leaf(9); } inline int c_ptr(std::shared_ptr<Base> b) { return b->pub(); }
struct Store { std::shared_ptr<Base> b; void set(std::shared_ptr<Base> x) { b = x; } int run() { return b->pub(); } std::shared_ptr<Base> get() { return b; } };
inline int guarded(Base &b) { try { return b.pub(); } catch( std::exception const & ) { vt::ev("caught"); return -77; } }
}
'''
SHAPE_D = r'''
n = M.n
class B(n.Base):
    def pure(self): return 101
    def purec(self, a): return 102 + a
class Full(n.Base):
    def __init__(self): n.Base.__init__(self); self.log = []
    def pub(self): self.log.append('pub'); return 201
    def pure(self): self.log.append('pure'); return 202
    def purec(self, a): self.log.append(('purec', a)); return 203
    def fin(self): self.log.append('fin')
    def ne(self, a): self.log.append(('ne', a)); return 204
    def nef(self, a): self.log.append(('nef', a)); return 205
    def prot(self, a): self.log.append(('prot', a)); return 206
    def protc(self): self.log.append('protc'); return 207
    def priv(self, a): self.log.append(('priv', a)); return 208
    def over(self, *a): self.log.append(('over', a)); return 209
    def twin(self, a): self.log.append(('twin', a)); return 210
    def __call__(self, a): self.log.append(('call', a)); return 211
    def __getitem__(self, a): self.log.append(('index', a)); return 212
    def self(self): self.log.append('self'); return self
for mk in (B, ):
    t('partial: overridden', lambda: (n.c_pure(mk()), n.c_purec(mk(), 3)), ret=(101, 105), ev=[])
    t('partial: rest', lambda: (n.c_pub(mk()), n.c_ne(mk(), 4), n.c_nef(mk(), 5), n.c_over1(mk()), n.c_over2(mk()), n.c_over3(mk()), n.c_twin(mk()), n.c_call(mk()), n.c_index(mk()), n.c_self(mk())), ret=(1, 4, 5, 11, 12, 13, 14, 16, 17, True),
      ev=['Base::pub()', 'Base::ne()', 'Base::nef()', 'over(int)(1)', "over(string)('s')", 'over(int,int)(1,2)', 'twin(5)', 'call(7)', 'index(8)', 'self()'])
    t('partial: const twin', lambda: n.c_twinc(mk()), ret=15, ev=['twin const(6)'])
    t('partial: protected and private', lambda: (mk().tmpl(2), mk().call_protc()), ret=(2002, 19), ev=['Base::prot(2)', 'Base::priv(2)', 'Base::protc()'])
    t('partial: final', lambda: n.c_fin(mk()), ret=None, ev=['Base::fin()'])
    t('partial: python calls', lambda: (mk().pub(), mk().pure(), mk().purec(1), mk().nonvirtual(), mk()(3), mk()[4], mk().over('x')), ret=(1, 101, 103, 1, 16, 17, 12))
o = Full()
for f, r, l in [(lambda: n.c_pub(o), 201, 'pub'), (lambda: n.c_pure(o), 202, 'pure'), (lambda: n.c_purec(o, 4), 203, ('purec', 4)), (lambda: n.c_ne(o, 5), 204, ('ne', 5)), (lambda: n.c_nef(o, 6), 205, ('nef', 6)), (lambda: o.call_protc(), 207, 'protc'),
                (lambda: n.c_over1(o), 209, ('over', (1,))), (lambda: n.c_over2(o), 209, ('over', ('s',))), (lambda: n.c_over3(o), 209, ('over', (1, 2))), (lambda: n.c_twin(o), 210, ('twin', 5)), (lambda: n.c_call(o), 211, ('call', 7)), (lambda: n.c_index(o), 212, ('index', 8)), (lambda: n.c_self(o), True, 'self'), (lambda: n.c_ptr(o), 201, 'pub')]:
    t(f'full: {l}', lambda: (o.log.clear(), f(), list(o.log))[1:], ret=(r, [l]), ev=[])
t('full: protected override, private stays C++', lambda: (o.log.clear(), o.tmpl(3), list(o.log))[1:], ret=(3206, [('prot', 3)]), ev=['Base::priv(3)'])
t('full: final can not be overridden', lambda: (o.log.clear(), n.c_fin(o), list(o.log))[1:], ret=(None, []), ev=['Base::fin()'])
t('full: C++ function reaches override', lambda: (o.log.clear(), o.nonvirtual(), list(o.log))[1:], ret=(201, ['pub']), ev=['nonvirtual()'])
t('override can call the C++ function', lambda: (n.c_pub(type('S', (n.Leaf,), {'pub': lambda s: n.Leaf.pub.__get__(n.Leaf()) and 5 + super(type(s), s).stat()})())), ret=23, ev=[])
class Sup(n.Leaf):
    depth = 0
    def leaf(self, a):
        self.depth += 1
        if self.depth > 3: return -1
        return 1000 + super().leaf(a + 1)
t('override calls super()', lambda: n.c_leaf(Sup()), ret=1034, ev=['Leaf::leaf(10)'])
class PL(n.Leaf): pass
class PLL(PL):
    def purec(self, a): return 301
    def over(self, *a): return 302 + len(a)
    def mid(self): return 303
    def leaf(self, a): return 304
t('deep: fallback runs the most derived C++ function', lambda: (n.c_pub(PL()), n.c_pure(PL()), n.c_purec(PL(), 2), n.c_over1(PL()), n.c_over2(PL()), n.c_over3(PL()), n.c_mid(PL()), n.c_leaf(PL()), n.c_ne(PL(), 1)), ret=(32, 21, 31, 22, 12, 13, 33, 34, 1),
  ev=['Leaf::pub()', 'Mid::pure()', 'Leaf::purec(2)', 'Mid::over(int)(1)', "over(string)('s')", 'over(int,int)(1,2)', 'Leaf::mid()', 'Leaf::leaf(9)', 'Base::ne()'])
t('deep: overrides', lambda: (n.c_purec(PLL(), 2), n.c_over1(PLL()), n.c_over2(PLL()), n.c_over3(PLL()), n.c_leaf(PLL())), ret=(301, 303, 303, 304, 304), ev=[])
t('deep: final in the middle', lambda: n.c_mid(PLL()), ret=33, ev=['Leaf::mid()'])
t('C++ objects', lambda: (n.c_pub(n.Leaf()), n.c_leaf(n.Last()), n.c_pub(n.Last()), n.c_mid(n.Last())), ret=(32, 41, 32, 33), ev=['Leaf::pub()', 'Last::leaf(9)', 'Leaf::pub()', 'Leaf::mid()'])
t('final class can not be subclassed usefully', lambda: n.c_leaf(n.Last()), ret=41, ev=['Last::leaf(9)'])
class Miss(n.Base):
    def pure(self): return 1
t('pure function without override', lambda: n.c_purec(Miss(), 1), exc='RuntimeError')
t('pure function of plain object', lambda: n.c_pure(n.Base()), exc='RuntimeError')
class Exc(B):
    def pub(self): raise KeyError('from python')
t('exceptions travel through C++', lambda: n.c_pub(Exc()), exc='KeyError')
t('exceptions can be caught in C++', lambda: n.guarded(Exc()), ret=-77, ev=['caught()'])
class Bad(B):
    def pub(self): return 'not a number'
t('result of wrong type', lambda: n.c_pub(Bad()), exc=True)
t('works after errors', lambda: n.c_pub(B()), ret=1)
class Mod(B): pass
def late():
    o = Mod(); a = n.c_pub(o)
    return a
t('no override', late, ret=1)
class ByInst(B):
    def pub(self): return 401
t('several objects', lambda: [n.c_pub(x) for x in (B(), ByInst(), B(), ByInst(), n.Leaf())], ret=[1, 401, 1, 401, 32])
s = n.Store()
class Own(B):
    def pub(self): return 402
x = Own(); s.set(x)
t('stored while alive', lambda: (s.run(), s.get() is x), ret=(402, True))
class PM(n.Mid):
    def purec(self, a): return 501
    def mid(self): return 502
t('through different static types', lambda: (n.c_mid(PM()), n.c_pure(PM()), n.c_purec(PM(), 0), n.c_over1(PM())), ret=(502, 21, 501, 22), ev=['Mid::pure()', 'Mid::over(int)(1)'])
class Mixin:
    def pub(self): return 601
class Mixed(Mixin, n.Leaf):
    def __init__(self): n.Leaf.__init__(self)
t('override from a python mixin', lambda: n.c_pub(Mixed()), ret=601, ev=[])
'''

MULTI = r'''
#include <vector>
namespace a { struct X { virtual ~X() {} virtual int f() { vt::ev("a::X::f"); return 1; } virtual int g() { vt::ev("a::X::g"); return 2; } }; }
namespace b { struct X : a::X { int f() override { vt::ev("b::X::f"); return 3; } virtual int h() { vt::ev("b::X::h"); return 4; } }; struct Y { virtual ~Y() {} virtual int y(int a) { vt::ev("Y::y", a); return 5; } virtual int z() = 0; }; }
struct XY : b::X, b::Y { int z() override { vt::ev("XY::z"); return 6; } virtual int own() { vt::ev("XY::own"); return 7; } };
class PrivOver : public a::X { int f() override { vt::ev("PrivOver::f"); return 8; } public: virtual int p() { vt::ev("PrivOver::p"); return 9; } };
struct Vb { virtual ~Vb() {} virtual int f() { vt::ev("Vb::f"); return 10; } virtual int q() { vt::ev("Vb::q"); return 11; } };
struct Rt : virtual Vb { virtual int r() { vt::ev("Rt::r"); return 12; } };
struct Lt : virtual Vb { int f() override { vt::ev("Lt::f"); return 13; } };
struct Diamond : Rt, Lt { virtual int d() { vt::ev("Diamond::d"); return 14; } };
class Tw { public: virtual ~Tw() {} virtual int f() const { vt::ev("Tw::f const"); return 15; } };
struct Tw2 : Tw { virtual int f() { vt::ev("Tw2::f"); return 16; } int f() const override { vt::ev("Tw2::f const"); return 17; } };
class Prot : protected a::X { public: virtual int pr() { vt::ev("Prot::pr"); return 18; } int callg() { return g(); } };
template <typename T> struct Gen { virtual ~Gen() {} virtual T gen(T const &a) { vt::ev("Gen", a); return a; } virtual int pg() = 0; };
struct GenI : Gen<int> { int pg() override { vt::ev("GenI::pg"); return 19; } }; struct GenS : Gen<std::string> { int pg() override { vt::ev("GenS::pg"); return 20; } virtual int own() { return 21; } };
struct Outer { struct In { virtual ~In() {} virtual int in(int a) { vt::ev("In::in", a); return 22; } virtual int pin() = 0; }; int use(In &i, int a) { return i.in(a) + i.pin(); } };
struct Hide : a::X { int f(int a) { vt::ev("Hide::f(int)", a); return 23; } virtual int k() { return 24; } };
struct Cov { virtual ~Cov() {} virtual Cov *clone() const { vt::ev("Cov::clone"); return new Cov; } virtual int id() { vt::ev("Cov::id"); return 25; } }; struct CovD : Cov { CovD *clone() const override { vt::ev("CovD::clone"); return new CovD; } int id() override { vt::ev("CovD::id"); return 26; } };
struct Dtor { virtual ~Dtor() { vt::ev("~Dtor"); } virtual int f() { return 27; } };
struct Cb { virtual ~Cb() {} virtual void on(int a, std::string const &b) = 0; virtual bool more() { return false; } };
struct Loop { std::vector<std::shared_ptr<Cb>> cbs; void add(std::shared_ptr<Cb> c) { cbs.push_back(c); } int run() { int n = 0; for( auto &c : cbs ) { int i = 0; do { c->on(i, std::to_string(n)); ++n; ++i; } while( c->more() ); } return n; } };
inline int cf(a::X &x) { return x.f(); } inline int cg(a::X &x) { return x.g(); } inline int ch(b::X &x) { return x.h(); } inline int cy(b::Y &x) { return x.y(5); } inline int cz(b::Y &x) { return x.z(); } inline int vf(Vb &x) { return x.f(); } inline int vq(Vb &x) { return x.q(); } inline int tf(Tw const &x) { return x.f(); } inline int tf2(Tw2 &x) { return x.f(); }
inline int gi(Gen<int> &x) { return x.gen(4) + x.pg(); } inline std::string gs(Gen<std::string> &x) { return x.gen("g") + std::to_string(x.pg()); } inline int cid(Cov const &c) { std::unique_ptr<Cov> p(c.clone()); return p->id(); }
'''
MULTI_D = r'''
X, BX, XY, Y = M.a.X, M.b.X, M.XY, M.b.Y
class P1(BX): pass
class P2(BX):
    def f(self): return 101
    def g(self): return 102
t('same simple name: fallback', lambda: (M.cf(P1()), M.cg(P1()), M.ch(P1())), ret=(3, 2, 4), ev=['b::X::f()', 'a::X::g()', 'b::X::h()'])
t('same simple name: override', lambda: (M.cf(P2()), M.cg(P2()), M.ch(P2())), ret=(101, 102, 4), ev=['b::X::h()'])
class P3(XY): pass
class P4(XY):
    def y(self, a): return 110 + a
    def z(self): return 111
    def g(self): return 112
    def own(self): return 113
t('two bases: fallback', lambda: (M.cf(P3()), M.cg(P3()), M.ch(P3()), M.cy(P3()), M.cz(P3()), P3().own()), ret=(3, 2, 4, 5, 6, 7), ev=['b::X::f()', 'a::X::g()', 'b::X::h()', 'Y::y(5)', 'XY::z()', 'XY::own()'])
t('two bases: override', lambda: (M.cf(P4()), M.cg(P4()), M.cy(P4()), M.cz(P4())), ret=(3, 112, 115, 111), ev=['b::X::f()'])
class P5(M.PrivOver): pass
class P5b(M.PrivOver):
    def g(self): return 120
    def p(self): return 121
t('private override keeps its meaning', lambda: (M.cf(P5()), M.cg(P5()), P5().p(), M.cf(P5b()), M.cg(P5b())), ret=(8, 2, 9, 8, 120), ev=['PrivOver::f()', 'a::X::g()', 'PrivOver::p()', 'PrivOver::f()'])
class P6(M.Diamond): pass
class P6b(M.Diamond):
    def f(self): return 130
    def q(self): return 131
t('diamond: fallback is the final overrider', lambda: (M.vf(P6()), M.vq(P6()), M.vf(M.Diamond())), ret=(13, 11, 13), ev=['Lt::f()', 'Vb::q()', 'Lt::f()'])
t('diamond: override', lambda: (M.vf(P6b()), M.vq(P6b())), ret=(130, 131), ev=[])
class P7(M.Tw2): pass
t('const twin: fallback', lambda: (M.tf(P7()), M.tf2(P7())), ret=(17, 16), ev=['Tw2::f const()', 'Tw2::f()'])
class P7b(M.Tw):
    def f(self): return 140
t('const: override', lambda: M.tf(P7b()), ret=140, ev=[])
class P8(M.Prot):
    def pr(self): return 150
    def g(self): return 151
t('protected base', lambda: (P8().callg(), M.Prot().callg()), ret=(151, 2), ev=['a::X::g()'])
class P9(M.GenI):
    def gen(self, a): return a * 10
class P9s(M.GenS):
    def pg(self): return 9
t('template base', lambda: (M.gi(P9()), M.gs(P9s()), M.gi(M.GenI())), ret=(59, 'g9', 23), ev=['GenI::pg()', "Gen('g')", 'Gen(4)', 'GenI::pg()'])
class P9g(M.Gen_int_t):
    def pg(self): return 70
t('template class', lambda: M.gi(P9g()), ret=74, ev=['Gen(4)'])
class P10(M.Outer.In):
    def pin(self): return 160
class P10b(P10):
    def in_(self, a): return 0
setattr(P10b, 'in', lambda self, a: 200 + a)
t('nested class', lambda: (M.Outer().use(P10(), 3), M.Outer().use(P10b(), 3)), ret=(182, 363), ev=['In::in(3)'])
class P11(M.Hide): pass
class P11b(M.Hide):
    def f(self, *a): return 170 + len(a)
t('hidden base function', lambda: (M.cf(P11()), P11().f(4), M.cf(P11b())), ret=(1, 23, 170), ev=['a::X::f()', 'Hide::f(int)(4)'])
class P12(M.CovD): pass
t('covariant result', lambda: (M.cid(P12()), M.cid(M.Cov()), M.cid(M.CovD())), ret=(26, 25, 26), ev=['CovD::clone()', 'CovD::id()', 'Cov::clone()', 'Cov::id()', 'CovD::clone()', 'CovD::id()'])
class P13(M.Dtor): pass
def dt():
    o = P13(); r = o.f(); del o; gc.collect(); return r
t('destructor runs once', dt, ret=27, ev=['~Dtor()'])
class C1(M.Cb):
    def __init__(self, k): M.Cb.__init__(self); self.k, self.got = k, []
    def on(self, a, b): self.got.append((a, b))
    def more(self): self.k -= 1; return self.k > 0
def loop():
    l, cs = M.Loop(), [C1(1), C1(3), C1(2)]
    for c in cs: l.add(c)
    return (l.run(), [c.got for c in cs])
t('callbacks in order', loop, ret=(6, [[(0, '0')], [(0, '1'), (1, '2'), (2, '3')], [(0, '4'), (1, '5')]]))
import threading
class Th(BX):
    def f(self): return threading.get_ident() and 180
res = []
ths = [threading.Thread(target=lambda: res.extend(M.cf(Th()) for _ in range(200))) for _ in range(4)]
for x in ths: x.start()
for x in ths: x.join()
t('threads', lambda: (len(res), set(res)), ret=(800, {180}))
'''


def spread():
    """functions with the same name and different signatures, spread over a chain of classes: each one is its own slot"""
    sigs = [('', '', ()), ('', ' const', ()), ('int a', '', (1,)), ('int a', ' const', (1,)), ('int a, int b', '', (1, 2)), ('double a', ' const', (1.5,)), ('std::string const &a', '', ('s',)), ('K &a', '', 'k'), ('K const &a', ' const', 'k'), ('K *a', '', 'k'), ('long a', ' const', (7,)), ('bool a', '', (True,))]
    h, d = HEAD, 'n = M.n\n'
    import itertools
    num = 0
    pairs = [(a, b) for a, b in itertools.permutations(range(len(sigs)), 2) if (a + 2 * b) % 5 == 0 or sigs[a][0] == sigs[b][0]]
    for a, b in pairs:
        num += 1
        for mode in ('chain', 'two') if sigs[a][0] == sigs[b][0] else ('chain',):
            X, Y = f'{mode}X{num}', f'{mode}Y{num}'
            def m(i, c):
                ps, q, _ = sigs[i]
                return f'virtual int f({ps}){q} {{ vt::ev("{c}::f{i}"); return {i}; }}'
            h += f'struct {X} {{ virtual ~{X}() {{}} {m(a, X)} }};\n'
            h += f'struct {Y} : {X} {{ {m(b, Y)} }};\n' if mode == 'chain' else f'struct {Y}B {{ virtual ~{Y}B() {{}} {m(b, Y)} }}; struct {Y} : {X}, {Y}B {{ int own() {{ return 1; }} }};\n'
            def call(i, c, nm):
                ps, q, v = sigs[i]
                arg = {'int a': '1', 'int a, int b': '1, 2', 'double a': '1.5', 'std::string const &a': 'std::string("s")', 'K &a': 'KS()', 'K const &a': 'KS()', 'K *a': '&KS()', 'long a': '7l', 'bool a': 'true', '': ''}[ps]
                return f'inline int {nm}({c}{q} &o) {{ return o.f({arg}); }}\n'
            h += call(a, X, f'{mode}cx{num}') + call(b, Y if mode == 'chain' else Y + 'B', f'{mode}cy{num}')
            d += f'class P(n.{Y}):\n    def f(self, *a): return 100 + len(a)\nclass Q(n.{Y}): pass\n'
            na, nb = (len(sigs[i][2]) if sigs[i][2] != 'k' else 1 for i in (a, b))
            d += f't("{mode} f({sigs[a][0]}){sigs[a][1]} and f({sigs[b][0]}){sigs[b][1]}: overridden", lambda: (n.{mode}cx{num}(P()), n.{mode}cy{num}(P())), ret=({100 + na}, {100 + nb}), ev=[])\n'
            d += f't("{mode} f({sigs[a][0]}){sigs[a][1]} and f({sigs[b][0]}){sigs[b][1]}: not overridden", lambda: (n.{mode}cx{num}(Q()), n.{mode}cy{num}(Q())), ret=({a}, {b}), ev=["{X}::f{a}()", "{Y}::f{b}()"])\n'
    return h + '}\n', d


def cases(check, rng, tier):
    g, gd = grid()
    return [scen('grid', g, gd), scen('shapes', SHAPE, SHAPE_D), scen('inheritance', MULTI, MULTI_D), scen('signatures', *spread())] + \
        worlds('world', seeds(rng, nworlds(tier, 12, 150)), ['virtual'], classes=lambda r: r.randint(5, 10), functions=2, enums=2)


CHECK = Check('C07', 'exploration', 'event logs of C++ virtual functions and of Python overrides, for calls made from C++ on Python subclass objects of generated modules',
              'one observation per virtual call made by C++ code: which implementation (C++ or Python) ran, once, with which arguments and result; non-trivial = a distinct (class shape, virtual function, overridden or not)', cases,
              assumptions=['pybind11 2.11 and clang 14 of this sandbox'])
