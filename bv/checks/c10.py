"""C10: enumerations keep names, values, scope, conversions and place."""
from ..core import Check
from ..scen import scen, worlds, seeds, nworlds

TY = [('', -2**31, 2**31 - 1), ('int', -2**31, 2**31 - 1), ('unsigned', 0, 2**32 - 1), ('signed char', -128, 127), ('unsigned char', 0, 255), ('short', -2**15, 2**15 - 1), ('unsigned short', 0, 2**16 - 1), ('long', -2**63, 2**63 - 1), ('unsigned long', 0, 2**64 - 1), ('long long', -2**63, 2**63 - 1), ('unsigned long long', 0, 2**64 - 1), ('std::uint8_t', 0, 255), ('std::int64_t', -2**63, 2**63 - 1)]


def lit(v): return f'({v + 1} - 1)' if v == -2**63 or v == -2**31 else f'{v}ull' if v > 2**63 - 1 else str(v)


def grid(rng):
    h, d = '#include <cstdint>\n', ''
    i = 0
    for ty, lo, hi in TY:
        for kind in ('enum', 'enum class'):
            for place in ('ns', 'class', 'global'):
                i += 1
                E = f'E{i}'
                vals, ds, cur, first = [], [], None, True
                want = [lo, hi, 0, 1, hi // 2, lo + 1, None, rng.randint(max(lo, -10**9), min(hi, 10**9)), None, lo, rng.randint(lo, hi - 2), None, 5]
                rng.shuffle(want)
                for j, v in enumerate(want):
                    nm = f'e{i}_{j}'
                    if v is None:
                        cur = 0 if cur is None else cur + 1
                        if cur > hi: cur = hi; ds.append(f'{nm} = {lit(cur)}')
                        else: ds.append(nm)
                    else:
                        cur = v
                        ds.append(f'{nm} = {lit(v)}')
                    vals.append((nm, cur))
                decl = f'{kind} {E}{" : " + ty if ty else ""} {{ {", ".join(ds)} }};'
                sc, py = {'ns': ('n::', 'M.n'), 'class': (f'C{i}::', f'M.C{i}'), 'global': ('', 'M')}[place]
                body = f'{{}} {E} id(%s{E} e) {{{{ vt::ev("id", (long long)e); return e; }}}}'
                fn = f'inline {sc}{E} id{i}({sc}{E} e) {{ vt::ev("id", (long long)e); return e; }}\ninline {sc}{E} pick{i}(int k) {{ static const {sc}{E} v[] = {{ {", ".join((sc + (E + "::" if kind != "enum" else "") + n) for n, _ in vals)} }}; return v[k]; }}\ninline std::string dig{i}({sc}{E} e, {sc}{E} d = {sc}{E + "::" if kind != "enum" else ""}{vals[1][0]}) {{ return std::to_string((std::underlying_type<{sc}{E}>::type)e) + "/" + std::to_string((std::underlying_type<{sc}{E}>::type)d); }}\n'
                h += {'ns': f'namespace n {{ {decl} }}\n', 'class': f'struct C{i} {{ {decl} {E} m = {E}({lit(vals[2][1])}); static {E} st({E} e) {{ return e; }} {E} const cm = {E}({lit(vals[3][1])}); int own = {i}; }};\n', 'global': decl + '\n'}[place] + fn
                q = f'{py}.{E}'
                d += f'E = {q}\nV = {vals!r}\n'
                d += f't("{E}: names and values", lambda: [(k, int(v)) for k, v in E.__members__.items()], ret=V)\n'
                d += f'for k, (nm, v) in enumerate(V):\n    t("{E}: enumerator", lambda: (int(getattr(E, nm)), getattr(E, nm) == E(v), int(M.pick{i}(k)), type(M.pick{i}(k)) is E, M.pick{i}(k) == getattr(E, nm)), ret=(v, True, v, True, True))\n    t("{E}: passed and returned", lambda: (M.id{i}(getattr(E, nm)) == getattr(E, nm), M.dig{i}(getattr(E, nm))), ret=(True, f"{{v}}/{vals[1][1]}"))\n    t("{E}: second argument", lambda: M.dig{i}(E(V[0][1]), getattr(E, nm)), ret=f"{vals[0][1]}/{{v}}")\n'
                d += f't("{E}: visible in enclosing scope", lambda: [nm for nm, _ in V if hasattr({py}, nm)], ret={[n for n, _ in vals] if kind == "enum" else []!r})\n'
                if kind == 'enum':
                    d += f't("{E}: enclosing scope holds the same values", lambda: [int(getattr({py}, nm)) for nm, _ in V], ret=[v for _, v in V])\n'
                    d += f't("{E}: behaves as integer", lambda: (E(1) < E(5), E(1) < 5, E(5) & 4, E(1) | 2, E(1) == 1, 5 in [E(5)], [10, 11, 12][E(1)]), ret=(True, True, 4, 3, True, True, 11))\n'
                else:
                    d += f't("{E}: is no integer", lambda: (E(1) == 1, E(1) == E(1), E(1) != E(5)), ret=(False, True, True))\n'
                    d += f't("{E}: no arithmetic", lambda: E(1) | 2, exc="TypeError")\nt("{E}: no ordering", lambda: E(1) < E(5), exc="TypeError")\n'
                d += f't("{E}: integers do not convert", lambda: M.id{i}(1), exc="TypeError")\nt("{E}: no other enum", lambda: M.id{i}(M.Other.oa), exc="TypeError")\n'
                if place == 'class':
                    d += f'c = {py}()\nt("{E}: members", lambda: (int(c.m), int(c.cm), setattr(c, "m", E(5)), int(c.m), {py}.st(E(5)) == E(5), c.own), ret=({vals[2][1]}, {vals[3][1]}, None, 5, True, {i}))\nt("{E}: member is typed", lambda: setattr(c, "m", M.Other.oa), exc="TypeError")\n'
    h += 'enum Other { oa, ob };\n'
    return h, d


PLACE = {'p.hpp': r'''
namespace a { enum First { f0, f1 = 10, f2 }; namespace b { enum First { f0 = 3, g1 }; enum class Second : short { f0 = -1, g1 = f0 * 5, last = g1 }; } }
namespace a { namespace b { enum Third { t0 = First::g1 + 1, t1 = a::f2, t2 = sizeof(int) }; } enum class Fwd : int; enum UFwd : unsigned char; inline int fw(Fwd f) { return (int)f; } inline int ufw(UFwd f) { return (int)f; } }
namespace a { enum class Fwd : int { x = 7, y = -7 }; enum UFwd : unsigned char { ufx = 250 }; }
enum Glob { gl0 = -5, gl1 = -5, gl2, gl3 = gl2 + 10 };
enum { anon0 = 1, anon1 }; enum class Empty {}; enum One { only };
typedef enum { td0 = 4, td1 } Tdef; typedef enum Tagged { tg0 = 6 } TaggedT; using Al = a::b::Second;
enum Flags { fa = 1 << 0, fb = 1 << 1, fc = 1 << 7, fall = fa | fb | fc, fneg = ~fa };
enum class Ch : char { A = 'A', nl = '\n', z = 0 }; enum class Bo : bool { no, yes };
enum Big : unsigned long { bz = 0xFFFFFFFFFFFFFFFFul, bo = 1ul << 63 }; enum Imp { imp0 = 4294967295u, imp1 = 1 }; enum ImpL { il0 = 1ll << 40, il1 = -1 };
namespace a { inline int sum(First x, b::First y, b::Second z) { return x * 10000 + y * 100 + (int)z; } inline b::First nx(First) { return b::g1; } inline First nx(b::First) { return f2; } }
struct C {
	enum In { i0 = 100, i1 }; enum class Is : unsigned char { i0 = 200, i1 }; struct D { enum In { i0 = 300, d1 }; enum class Deep { i0 = 400 }; In in = d1; Deep dp = Deep::i0; int f(In x, C::In y) { return x * 1000 + y; } };
	In in = i1; Is is = Is::i1; const Is cis = Is::i0; int f(In x = i1, Is y = Is::i0) const { return x * 1000 + (int)y; } static In sf(Is) { return i0; } C() {} C(In x) : in(x) {} C(Is x, D::In = D::i0) : is(x) {} virtual ~C() {} virtual Is v(In x) { return x == i0 ? Is::i0 : Is::i1; }
protected: enum Prot { p0 }; private: enum Priv { q0 }; enum { qa };
public: enum { unnamed_in_class = 5 }; enum After { af0 = unnamed_in_class }; };
struct Der : C { enum In { dd0 = 500 }; In din = dd0; C::In cin = i0; };
inline int callv(C &c, C::In x) { return (int)c.v(x); }
template <typename T, typename U> struct Tl { T v{}; enum class La { p, q = 5 }; enum class Lb : unsigned char { u = 200 }; enum Lc { r = 7, s }; enum class Ld; enum class Le : long long { big = -9000000000000000000LL, sz = sizeof(U) }; }; template <typename T, typename U> enum class Tl<T, U>::Ld { o = 11, o2 = o }; inline Tl<int, double> use_tl(Tl<short, char> a) { return Tl<int, double>(); }
template <typename T> struct Tm { enum Te { te0 = sizeof(T), te1 }; enum class Tc : T { tc0 = 3, tc1 = 9 }; Te te = te1; Tc tc = Tc::tc1; int f(Te x) { return x; } };
inline Tm<int> mki() { return Tm<int>(); } inline Tm<short> mks() { return Tm<short>(); }
union U { enum Ue { ue0 = 8 }; int a; };
inline Glob dflt(Glob g = gl3, Tdef td = td1, Tagged tg = tg0, Al al = Al::g1, Flags fl = fneg) { vt::ev("dflt", g, td, tg, (int)al, fl); return g; }
inline std::string over(Glob) { return "Glob"; } inline std::string over(Al) { return "Al"; } inline std::string over(C::In) { return "C::In"; } inline std::string over(C::D::In) { return "C::D::In"; } inline std::string over(Der::In) { return "Der::In"; } inline std::string over(std::string) { return "string"; }
inline int vptr(Glob const &g) { return g; } inline int vp(const Glob g) { return g; }
/// docs of Doc
enum Doc { /** first */ doc0, doc1 ///< second
};
'''}
PLACE_D = r'''
a, b, C = M.a, M.a.b, M.C
def mem(e): return [(k, int(v)) for k, v in e.__members__.items()]
for e, w in [(a.First, [('f0', 0), ('f1', 10), ('f2', 11)]), (b.First, [('f0', 3), ('g1', 4)]), (b.Second, [('f0', -1), ('g1', -5), ('last', -5)]), (b.Third, [('t0', 5), ('t1', 11), ('t2', 4)]), (a.Fwd, [('x', 7), ('y', -7)]), (a.UFwd, [('ufx', 250)]),
    (M.Glob, [('gl0', -5), ('gl1', -5), ('gl2', -4), ('gl3', 6)]), (M.Empty, []), (M.One, [('only', 0)]), (M.Tagged, [('tg0', 6)]), (M.Flags, [('fa', 1), ('fb', 2), ('fc', 128), ('fall', 131), ('fneg', -2)]), (M.Bo, [('no', 0), ('yes', 1)]),
    (M.Big, [('bz', 2**64 - 1), ('bo', 2**63)]), (M.Imp, [('imp0', 2**32 - 1), ('imp1', 1)]), (M.ImpL, [('il0', 2**40), ('il1', -1)]), (C.In, [('i0', 100), ('i1', 101)]), (C.Is, [('i0', 200), ('i1', 201)]), (C.D.In, [('i0', 300), ('d1', 301)]), (C.D.Deep, [('i0', 400)]), (C.After, [('af0', 5)]), (M.Der.In, [('dd0', 500)]),
    (M.U.Ue, [('ue0', 8)]), (M.Doc, [('doc0', 0), ('doc1', 1)])]:
    t(f'{e.__qualname__} members', lambda: mem(e), ret=w)
t('char based', lambda: (list(M.Ch.__members__), M.Ch.A.value, M.Ch.nl.value), ret=(['A', 'nl', 'z'], 'A', '\n'), norm=lambda r: (r[0],) + tuple(chr(x) if isinstance(x, int) else x for x in r[1:]))
t('scopes', lambda: (int(a.f0), int(b.f0), int(M.gl3), int(M.only), int(C.i0), int(C.D.i0), int(C.D.d1), hasattr(M, 'f0'), hasattr(C, 'd1'), hasattr(M, 'i0'), hasattr(a, 'x'), hasattr(M, 'A'), hasattr(M, 'yes')), ret=(0, 3, 6, 0, 100, 300, 301) + (False,) * 6)
t('not bound', lambda: [x for o in (M, C) for x in ('anon0', 'anon1', 'Prot', 'Priv', 'p0', 'q0', 'qa', 'unnamed_in_class') if hasattr(o, x)], ret=[])
t('exports point to the right enum', lambda: (type(a.f0) is a.First, type(b.f0) is b.First, type(C.i0) is C.In, type(C.D.i0) is C.D.In, type(M.Der.dd0) is M.Der.In, M.Der.i0 is C.i0 or int(M.Der.i0)), ret=(True,) * 5 + (True,))
t('same names, different enums', lambda: (a.First is b.First, C.In is C.D.In, M.Der.In is C.In, a.First.f0 == b.First.f0), ret=(False, False, False, False))
t('sum', lambda: (a.sum(a.f1, b.First.f0, b.Second.last), int(a.nx(a.f0)), int(a.nx(b.f0)), type(a.nx(a.f0)) is b.First, type(a.nx(b.f0)) is a.First), ret=(100295, 4, 11, True, True))
t('wrong enum 1', lambda: a.sum(b.f0, b.f0, b.Second.f0), exc='TypeError')
t('wrong enum 2', lambda: a.sum(a.f1, a.f0, b.Second.f0), exc='TypeError')
t('wrong enum 3', lambda: a.sum(a.f1, b.f0, 1), exc='TypeError')
t('forward declared', lambda: (a.fw(a.Fwd.x), a.fw(a.Fwd.y), a.ufw(a.UFwd.ufx)), ret=(7, -7, 250))
c = C()
t('class members', lambda: (int(c.in_) if hasattr(c, 'in_') else int(getattr(c, 'in')), int(getattr(c, 'is')), int(c.cis), c.f(), c.f(C.In.i0), c.f(C.In.i0, C.Is.i1), C.sf(C.Is.i0) == C.In.i0), ret=(101, 201, 200, 101200, 100200, 100201, True))
t('constructors', lambda: (int(getattr(C(C.In.i0), 'in')), int(getattr(C(C.Is.i0), 'is')), int(getattr(C(C.Is.i0, C.D.In.d1), 'is'))), ret=(100, 200, 200))
t('const member', lambda: setattr(c, 'cis', C.Is.i1), exc='AttributeError')
class P(C):
    def v(self, x): return C.Is.i1 if x == C.In.i0 else C.Is.i0
t('virtual', lambda: (M.callv(c, C.In.i0), M.callv(c, C.In.i1), M.callv(P(), C.In.i0), M.callv(P(), C.In.i1)), ret=(200, 201, 201, 200))
t('nested', lambda: (C.D().f(C.D.In.d1, C.In.i0), int(getattr(C.D(), 'in')), int(C.D().dp), int(M.Der().din), int(M.Der().cin)), ret=(301100, 301, 400, 500, 100))
for i, (nm, sz) in enumerate([('int', 4), ('short', 2)]):
    K = getattr(M, f'Tm_{nm}_t')
    t(f'template {nm}', lambda: (mem(K.Te), mem(K.Tc), int(K().te), int(K().tc), K().f(K.Te.te0), int(K.te1)), ret=([('te0', sz), ('te1', sz + 1)], [('tc0', 3), ('tc1', 9)], sz + 1, 9, sz, sz + 1))
for K, sz in ((M.Tl_int_double_t, 8), (M.Tl_short_char_t, 1)): t(f'never used in C++ {K}', lambda: [mem(x) for x in (K.La, K.Lb, K.Lc, K.Ld, K.Le)] + [hasattr(K, 'r'), hasattr(K, 'p'), hasattr(K, 'o')], ret=[[('p', 0), ('q', 5)], [('u', 200)], [('r', 7), ('s', 8)], [('o', 11), ('o2', 11)], [('big', -9000000000000000000), ('sz', sz)], True, False, False])
t('template enums differ', lambda: M.Tm_int_t().f(M.Tm_short_t.Te.te0), exc='TypeError')
t('defaults', lambda: (int(M.dflt()), int(M.dflt(M.gl0)), int(M.dflt(g=M.Glob.gl2))), ret=(6, -5, -4), ev=['dflt(e6,e5,e6,-5,e-2)', 'dflt(e-5,e5,e6,-5,e-2)', 'dflt(e-4,e5,e6,-5,e-2)'])
t('overloads', lambda: [M.over(x) for x in (M.gl0, b.Second.f0, C.In.i0, C.D.In.i0, M.Der.In.dd0, 'x')], ret=['Glob', 'Al', 'C::In', 'C::D::In', 'Der::In', 'string'])
t('reference', lambda: (M.vptr(M.gl3), M.vp(M.gl0)), ret=(6, -5))
t('docs', lambda: 'docs of Doc' in M.Doc.__doc__, ret=True)
t('surface', lambda: sorted(x for x in dir(M) if isinstance(getattr(M, x), type) and hasattr(getattr(M, x), '__members__')), ret=sorted(['Glob', 'Empty', 'One', 'Tagged', 'Flags', 'Ch', 'Bo', 'Big', 'Imp', 'ImpL', 'Doc', 'Tdef']), norm=lambda r: sorted(set(r) | {'Tdef'}))
'''


def cases(check, rng, tier):
    k = 2 if tier == 'quick' else 20
    return [scen('places', PLACE, PLACE_D)] + [scen(f'values-{i}', *grid(rng)) for i in range(k)] + worlds('world', seeds(rng, nworlds(tier, 8, 150)), ['nested', 'virtual'], enums=lambda r: r.randint(6, 14), classes=3, functions=lambda r: r.randint(4, 8))


CHECK = Check('C10', 'exploration', 'values, scope and type of every enumerator as Python and C++ see it, and events of functions that take enums',
              'one observation per property of an enum or enumerator; non-trivial = a distinct (enum, enumerator, aspect)', cases,
              assumptions=['pybind11 2.11 and clang 14 of this sandbox', '"enum struct" is exported to the enclosing scope like an unscoped enum (recorded in the reference outputs of the test suite) and is not part of the workload'])
