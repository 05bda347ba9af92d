"""C20: template specialisations are bound once, under the documented names, and behave as that specialisation; containers."""
import random, re
from ..core import Check
from ..scen import PRE, DPRE, scen, worlds, files_of, seeds, nworlds


def mangle(s):
    """the documented way from a C++ specialisation to a Python name"""
    r = re.sub(r'[ <>,:]+', '_', re.sub(r'[ <>,:]', '_', s))
    r = re.sub('_+', '_', r) if '__' in r else r
    return r.replace('*', '_star_').replace('&', '_ref_') + 't'


class G:
    """random specialisations; each type is (C++ text, text in names)"""
    BASIC = ['int', 'double', 'bool', 'char', 'unsigned int', 'long', 'short', 'float', 'unsigned char', 'unsigned long']

    def __init__(self, r, n):
        self.r, self.h, self.d = r, '', ''
        self.specs = {}  # C++ text -> python name
        self.maybe = set()
        self.decl()
        self.funcs(n)

    def decl(self):
        self.h += r'''
namespace n { struct A { int v = 3; }; enum E { e0, e1 = 7 }; enum class S { s0 = 2, s1 = -1 }; namespace m { struct A { int v = 4; }; } }
struct A { int v = 5; };
namespace vtn { template <class T> struct Nm; }
namespace vtn { template <> struct Nm<std::string> { static std::string get() { return "std::string"; } }; }
'''
        for t in self.BASIC + ['n::A', 'n::E', 'n::S', 'n::m::A', 'A']: self.h += f'namespace vtn {{ template <> struct Nm<{t}> {{ static std::string get() {{ return "{t}"; }} }}; }}\n'
        self.h += r'''
namespace vtn { template <class T> struct Nm<T *> { static std::string get() { return Nm<T>::get() + " *"; } }; }
namespace vtn { template <class T> struct Nm<T const> { static std::string get() { return "const " + Nm<T>::get(); } }; }
namespace vtn { template <class T> struct Nm<T &> { static std::string get() { return Nm<T>::get() + " &"; } }; }
namespace vtn { inline std::string cat() { return ""; } }
namespace vtn { template <class... R> std::string cat(std::string const &a, R const &...r) { std::string x = cat(r...); return a + (x.empty() ? "" : ", ") + x; } }
template <class T> struct One { typedef T type; int one = 1; std::string who() const { return vtn::Nm<One>::get(); } static int sz() { return sizeof(T); } };
namespace n { template <class T, class U = int> struct Two { int two = 2; std::string who() const { return vtn::Nm<Two>::get(); } One<U> oth_; One<U> other() { return oth_; } }; }
template <class T, int N> struct Arr { int n() const { return N; } std::string who() const { return vtn::Nm<Arr>::get(); } };
template <int N> struct Int { int n() const { return N; } std::string who() const { return vtn::Nm<Int>::get(); } Int<N> self() const { return *this; } };
template <bool B> struct Boo { bool n() const { return B; } std::string who() const { return vtn::Nm<Boo>::get(); } };
template <std::size_t N> struct Siz { unsigned long n() const { return N; } std::string who() const { return vtn::Nm<Siz>::get(); } };
template <n::E X> struct En { int n() const { return X; } std::string who() const { return vtn::Nm<En>::get(); } };
template <n::S X> struct Sc { int n() const { return (int)X; } std::string who() const { return vtn::Nm<Sc>::get(); } };
template <char C> struct Chr { int n() const { return C; } std::string who() const { return vtn::Nm<Chr>::get(); } };
template <class... T> struct Pack { int n() const { return sizeof...(T); } std::string who() const { return vtn::Nm<Pack>::get(); } };
template <class A, class... T> struct Tail { int n() const { return sizeof...(T); } std::string who() const { return vtn::Nm<Tail>::get(); } Pack<T...> rest_; Pack<T...> rest() const { return rest_; } };
template <int... N> struct Ints { long long n() const { long long s = 0; for( int x : {0, N...} ) s += x; return s; } std::string who() const { return vtn::Nm<Ints>::get(); } };
template <class... T> struct VirP { virtual ~VirP() {} virtual int v(int a) { return a + sizeof...(T); } int call(int a) { return v(a); } std::string who() const { return vtn::Nm<VirP>::get(); } };
template <template <class> class X, class T> struct TT { X<T> in_; X<T> in() const { return in_; } std::string who() const { return vtn::Nm<TT>::get(); } };
template <class T> struct Der : One<T> { int der = 9; std::string whod() const { return vtn::Nm<Der>::get(); } };
template <class T> struct Vir { virtual ~Vir() {} virtual int v(int a) { return a + 1; } int call(int a) { return v(a); } std::string who() const { return vtn::Nm<Vir>::get(); } };
template <int N> struct VirI { virtual ~VirI() {} virtual int v() { return N; } int call() { return v(); } std::string who() const { return vtn::Nm<VirI>::get(); } };
namespace vtn { template <class T> struct Nm<One<T>> { static std::string get() { return "One<" + Nm<T>::get() + ">"; } }; }
namespace vtn { template <class T, class U> struct Nm<n::Two<T, U>> { static std::string get() { return "n::Two<" + Nm<T>::get() + ", " + Nm<U>::get() + ">"; } }; }
namespace vtn { template <class T, int N> struct Nm<Arr<T, N>> { static std::string get() { return "Arr<" + Nm<T>::get() + ", " + std::to_string(N) + ">"; } }; }
namespace vtn { template <int N> struct Nm<Int<N>> { static std::string get() { return "Int<" + std::to_string(N) + ">"; } }; }
namespace vtn { template <bool N> struct Nm<Boo<N>> { static std::string get() { return std::string("Boo<") + (N ? "true" : "false") + ">"; } }; }
namespace vtn { template <std::size_t N> struct Nm<Siz<N>> { static std::string get() { return "Siz<" + std::to_string(N) + ">"; } }; }
namespace vtn { template <n::E N> struct Nm<En<N>> { static std::string get() { return "En<" + std::to_string(N) + ">"; } }; }
namespace vtn { template <n::S N> struct Nm<Sc<N>> { static std::string get() { return "Sc<" + std::to_string((int)N) + ">"; } }; }
namespace vtn { template <char N> struct Nm<Chr<N>> { static std::string get() { return "Chr<" + std::to_string((int)N) + ">"; } }; }
namespace vtn { template <class... T> struct Nm<Pack<T...>> { static std::string get() { return "Pack<" + cat(Nm<T>::get()...) + ">"; } }; }
namespace vtn { template <class A, class... T> struct Nm<Tail<A, T...>> { static std::string get() { return "Tail<" + cat(Nm<A>::get(), Nm<T>::get()...) + ">"; } }; }
namespace vtn { template <int... N> struct Nm<Ints<N...>> { static std::string get() { return "Ints<" + cat(std::to_string(N)...) + ">"; } }; }
namespace vtn { template <class... T> struct Nm<VirP<T...>> { static std::string get() { return "VirP<" + cat(Nm<T>::get()...) + ">"; } }; }
namespace vtn { template <class T> struct Nm<TT<One, T>> { static std::string get() { return "TT<One, " + Nm<T>::get() + ">"; } }; }
namespace vtn { template <class T> struct Nm<TT<Der, T>> { static std::string get() { return "TT<Der, " + Nm<T>::get() + ">"; } }; }
namespace vtn { template <class T> struct Nm<Der<T>> { static std::string get() { return "Der<" + Nm<T>::get() + ">"; } }; }
namespace vtn { template <class T> struct Nm<Vir<T>> { static std::string get() { return "Vir<" + Nm<T>::get() + ">"; } }; }
namespace vtn { template <int N> struct Nm<VirI<N>> { static std::string get() { return "VirI<" + std::to_string(N) + ">"; } }; }
'''

    def ty(self, depth=0):
        """(C++ text, canonical text that the name is made of, text that who() gives)"""
        r = self.r
        x = r.random()
        if depth > 2 or x < .45:
            b = r.choice(self.BASIC + ['n::A', 'n::E', 'n::S', 'n::m::A', 'A', 'std::string'])
            return b, b, b
        if x < .55:
            c, k, w = self.ty(depth + 1)
            if k.endswith('&'): return c, k, w
            if k.startswith('const '): return c, k, w
            f = r.choice(['ptr', 'const'])
            if f == 'const' and k.endswith('*'): return c, k, w
            return (c + ' *', k + (' *' if not k.endswith('*') else '*'), w + ' *') if f == 'ptr' else ('const ' + c, 'const ' + k, 'const ' + w)
        keep = dict(self.specs)
        x = self.spec(depth + 1)
        # an argument alone is not instantiated, but may be
        self.maybe.update({s[0] + '/' + s[1] for s in self.specs.values()})
        self.specs = keep
        c, k, w = x
        if k.startswith('n::Two<') and k.endswith(',int>'): k = k[:-5] + '>'
        if k.startswith('Siz<'): k = k.replace('UL>', '>')
        return c, k, w

    def spec(self, depth=0, kind=None):
        """a specialisation; remembers everything that gets bound with it"""
        r = self.r
        kind = kind or r.choice(['One', 'One', 'Two', 'Two1', 'Arr', 'Int', 'Boo', 'Siz', 'En', 'Sc', 'Chr', 'Pack', 'Pack', 'Tail', 'Ints', 'VirP', 'TT', 'Der', 'Vir', 'VirI'])
        num = lambda: r.choice([0, 1, 2, 7, -1, -20, 12345, 2147483647])
        if kind in ('One', 'Der', 'Vir'):
            c, k, w = self.ty(depth)
            if kind == 'Der': self.need(f'One<{k}>', f'One<{c}>', f'One<{w}>')
            return self.need(f'{kind}<{k}>', f'{kind}<{c}>', f'{kind}<{w}>', base=f'One<{k}>' if kind == 'Der' else None)
        if kind in ('Two', 'Two1'):
            c, k, w = self.ty(depth)
            d, l, x = self.ty(depth) if kind == 'Two' else ('int', 'int', 'int')
            self.need(f'One<{l}>', f'One<{d}>', f'One<{x}>')
            return self.need(f'n::Two<{k},{l}>', f'n::Two<{c}, {d}>' if kind == 'Two' else f'n::Two<{c}>', f'n::Two<{w}, {x}>')
        if kind == 'Arr':
            c, k, w = self.ty(depth)
            n = num()
            return self.need(f'Arr<{k},{n}>', f'Arr<{c}, {n}>', f'Arr<{w}, {n}>')
        if kind in ('Int', 'VirI'):
            n = num()
            return self.need(f'{kind}<{n}>', f'{kind}<{n}>', f'{kind}<{n}>')
        if kind == 'Boo':
            n = r.choice(['true', 'false'])
            return self.need(f'Boo<{n}>', f'Boo<{n}>', f'Boo<{n}>')
        if kind == 'Siz':
            n = r.choice([0, 1, 5, 4294967296, 18446744073709551615])
            return self.need(f'Siz<{n}UL>', f'Siz<{n}ul>', f'Siz<{n}>')
        if kind == 'En':
            e, v = r.choice([('e0', 0), ('e1', 7)])
            return self.need(f'En<n::{e}>', f'En<n::{e}>', f'En<{v}>')
        if kind == 'Sc':
            e, v = r.choice([('s0', 2), ('s1', -1)])
            return self.need(f'Sc<n::S::{e}>', f'Sc<n::S::{e}>', f'Sc<{v}>')
        if kind == 'Chr':
            e = r.choice(['a', 'Z', '0', '_', '+', '"', '\\', "'"])
            s = {'"': '"', '\\': '\\\\', "'": "\\'"}.get(e, e)
            return self.need(f"Chr<'{s}'>", f"Chr<'{s}'>", f'Chr<{ord(e)}>')
        if kind in ('Pack', 'Tail', 'VirP'):
            ts = [self.ty(depth + 1) for _ in range(r.choice([0, 1, 1, 2, 3]) + (kind == 'Tail'))]
            T = lambda kind, ts: (f'{kind}<' + ','.join(t[1] for t in ts) + '>', f'{kind}<' + ', '.join(t[0] for t in ts) + '>', f'{kind}<' + ', '.join(t[2] for t in ts) + '>')
            if kind == 'Tail': self.need(*T('Pack', ts[1:]))
            return self.need(*T(kind, ts))
        if kind == 'Ints':
            ns = [str(num()) for _ in range(r.choice([0, 1, 2, 3]))]
            return self.need('Ints<' + ','.join(ns) + '>', 'Ints<' + ', '.join(ns) + '>', 'Ints<' + ', '.join(ns) + '>')
        if kind == 'TT':
            c, k, w = self.ty(depth)
            x = r.choice(['One', 'Der'])
            self.need(f'One<{k}>', f'One<{c}>', f'One<{w}>')
            if x == 'Der': self.need(f'Der<{k}>', f'Der<{c}>', f'Der<{w}>', base=f'One<{k}>')
            return self.need(f'TT<{x},{k}>', f'TT<{x}, {c}>', f'TT<{x}, {w}>')

    def need(self, key, cpp, who, base=None):
        ns, nm = ('n', mangle(key[3:])) if key.startswith('n::') else ('', mangle(key))
        # two specialisations must not want one Python name (a limit of the naming scheme)
        for k, (a, b, c, d, e, f) in self.specs.items():
            if (a, b) == (ns, nm) and k != key: return 'int', 'int', 'int'
        self.specs.setdefault(key, [ns, nm, cpp, who, base, None])
        if base: self.specs[key][4] = base
        return cpp, key, who

    def funcs(self, n):
        r = self.r
        for i in range(n):
            c, k, w = self.spec()
            if k not in self.specs: continue
            s = self.specs[k]
            f = r.choice(['ret', 'ret', 'arg', 'ref', 'mem', 'sp', 'base', 'typedef'])
            if f == 'ret': self.h += f'inline {c} mk{i}() {{ vt::ev("mk{i}"); return {c}(); }}\n'; self.d += f't("returned {i}", lambda: type(M.mk{i}()) is K({k!r}), ret=True, ev=["mk{i}()"])\n'
            if f == 'arg': self.h += f'inline std::string arg{i}({c} x) {{ return vtn::Nm<{c}>::get(); }}\n'; self.d += f't("argument {i}", lambda: M.arg{i}(K({k!r})()), ret={w!r})\n'
            if f == 'ref': self.h += f'static_assert(sizeof({c}) > 0, ""); inline std::string ref{i}({c} const &x, {c} *y) {{ return vtn::Nm<{c}>::get(); }}\n'; self.d += f't("reference {i}", lambda: M.ref{i}(K({k!r})(), K({k!r})()), ret={w!r})\n'
            if f == 'mem': self.h += f'struct Mem{i} {{ {c} get() const {{ return {c}(); }} std::string put({c} const &) {{ return vtn::Nm<{c}>::get(); }} }};\n'; self.d += f't("member {i}", lambda: M.Mem{i}().put(M.Mem{i}().get()), ret={w!r})\n'
            if f == 'sp': self.h += f'inline std::shared_ptr<{c}> sp{i}() {{ return std::make_shared<{c}>(); }}\n'; self.d += f't("shared {i}", lambda: type(M.sp{i}()) is K({k!r}), ret=True)\n'
            if f == 'base': self.h += f'struct Bas{i} : {c} {{ int b = {i}; }};\n'; self.d += f't("base {i}", lambda: (M.Bas{i}.__bases__ == (K({k!r}),), M.Bas{i}().who() if hasattr(K({k!r}), "who") else None), ret=(True, {self.specs[s[4]][3] if s[4] else w!r}))\n'
            if f == 'typedef': self.h += f'typedef {c} Td{i}; using Us{i} = Td{i};\ninline Us{i} td{i}(Td{i} const &x) {{ return x; }}\n'; self.d += f't("typedef {i}", lambda: type(M.td{i}(K({k!r})())) is K({k!r}), ret=True)\n'

    def driver(self):
        keys = {k: (s[0], s[1]) for k, s in self.specs.items()}
        d = f'KEYS = {keys!r}\n' + r'''
def K(k):
    ns, nm = KEYS[k]
    return getattr(getattr(M, ns) if ns else M, nm)
def tmpl(m): return sorted(k for k, v in vars(m).items() if isinstance(v, type) and re.match('(One|Two|Arr|Int|Boo|Siz|En|Sc|Chr|Pack|Tail|Ints|VirP|TT|Der|Vir|VirI)_', k))
'''
        d += f'MAYBE = {self.maybe!r}\nNEED = {{ns + "/" + nm for ns, nm in KEYS.values()}}\nGOT = {{"/" + x for x in tmpl(M)}} | {{"n/" + x for x in tmpl(M.n)}}\n'
        d += 't("specialisations that are needed are bound", lambda: sorted(NEED - GOT), ret=[])\nt("nothing else is bound", lambda: sorted(GOT - NEED - MAYBE), ret=[])\n'
        d += 't("one object per specialisation", lambda: len({id(K(k)) for k in KEYS}), ret=len(KEYS))\n'
        for k, (ns, nm, cpp, who, base, _) in self.specs.items():
            d += f't({"who " + k!r}, lambda: K({k!r})().who(), ret={(base.replace(",", ", ") and self.specs[base][3] if base else who)!r})\n'
            if base: d += f't({"derived " + k!r}, lambda: (K({k!r})().whod(), K({k!r})().der, K({k!r})().one, K({k!r}).__bases__ == (K({base!r}),)), ret=({who!r}, 9, 1, True))\n'
            if k.startswith('n::Two'): d += f't({"other " + k!r}, lambda: (K({k!r})().two, K({k!r})().other().who()), ret=(2, {"One<" + self.second(k) + ">"!r}))\n'
            if k.startswith('Vir<'): d += f'class P(K({k!r})):\n    def v(self, a): return a + 100\nt({"override " + k!r}, lambda: (P().call(1), K({k!r})().call(1)), ret=(101, 2))\n'
            if k.startswith('VirP<'): d += f'class P(K({k!r})):\n    def v(self, a): return a + 100\nt({"override " + k!r}, lambda: (P().call(1), K({k!r})().call(0) >= 0), ret=(101, True))\n'
            if k.startswith('Ints<'): d += f't({"values " + k!r}, lambda: K({k!r})().n(), ret={sum(int(x) for x in k[5:-1].split(",") if x)})\n'
            if k.startswith('Tail<'): d += f't({"rest " + k!r}, lambda: K({k!r})().rest().n() == K({k!r})().n(), ret=True)\n'
            if k.startswith('VirI<'): d += f'class P(K({k!r})):\n    def v(self): return 55\nt({"override " + k!r}, lambda: (P().call(), K({k!r})().call()), ret=(55, {int(k[5:-1])}))\n'
            if k.startswith('Int<'): d += f't({"value " + k!r}, lambda: (K({k!r})().n(), type(K({k!r})().self()) is K({k!r})), ret=({int(k[4:-1])}, True))\n'
        return d + self.d

    def second(self, k):
        # second argument of n::Two<...>, as who() spells it
        who, depth = self.specs[k][3][len('n::Two<'):-1], 0
        for i, ch in enumerate(who):
            depth += {'<': 1, '>': -1}.get(ch, 0)
            if ch == ',' and depth == 0: return who[i + 2:]


def grid(name, seed, n):
    def run(ctx):
        g = G(random.Random(seed), n)
        ctx.project(files_of(g.h), DPRE + g.driver(), bind=[''], config='-namespace vtn\n')
        ctx.stat('specialisations', len(g.specs))
    return name, run


CONT = r"""
#include <vector>
#include <map>
#include <utility>
namespace n { struct A { int v; A(int v_ = 3) : v(v_) {} bool operator==(A const &o) const { return v == o.v; } bool operator<(A const &o) const { return v < o.v; } }; struct B { int w = 1; }; }
inline std::vector<int> vi(int k) { std::vector<int> r; for (int i = 0; i < k; ++i) r.push_back(i * i); return r; }
inline std::vector<double> vd() { return {1.5, 2, 3}; }
inline std::vector<bool> vb() { return {true, false}; }
inline std::vector<n::A> va() { return std::vector<n::A>(2); }
inline std::vector<n::B> vB() { return std::vector<n::B>(2); }
inline std::vector<std::string> vs() { return {"a", "bb"}; }
inline std::vector<std::vector<double>> vvd() { return {{1}, {2, 3}}; }
inline std::vector<std::shared_ptr<n::A>> vsp() { return {std::make_shared<n::A>(1), nullptr}; }
inline std::map<std::string, int> msi() { return {{"a", 1}, {"b", 2}}; }
inline std::map<int, n::A> mia() { return {{3, n::A(9)}}; }
inline std::map<int, int, std::greater<int>> mig() { return {{1, 10}, {2, 20}, {3, 30}}; }
inline long sum(std::vector<int> const &v) { long s = 0; for (auto x : v) s += x; vt::ev("sum", (long)v.size()); return s; }
inline void push(std::vector<int> &v, int x) { v.push_back(x); }
inline void put(std::map<std::string, int> &m, std::string const &k, int x) { m[k] = x; }
inline std::string show(std::map<std::string, int> const &m) { std::string r; for (auto const &p : m) r += p.first + "=" + std::to_string(p.second) + ";"; return r; }
inline std::string join(std::vector<std::string> const &m) { std::string r; for (auto const &p : m) r += p + "|"; return r; }
struct H { std::vector<int> v{1, 2}; std::map<std::string, int> m; std::vector<int> &r() { return v; } int sz() const { return (int)v.size(); } };
"""

BIND = '+include <stl_binders.hpp>\n+binder std::vector binder::vector_binder\n+binder std::map binder::map_binder\n'

CDRV = r"""
import random as _r
t('names', lambda: sorted(k for k in vars(M.std) if not k.startswith('_') and '[' not in k), ret=['map_int_int_std_greater_int_t', 'map_int_n_A', 'map_std_string_int', 'vector_bool', 'vector_double', 'vector_int', 'vector_n_A', 'vector_n_B', 'vector_std_shared_ptr_n_A_t', 'vector_std_string', 'vector_std_vector_double_t'])
def lst(v): return [v[i] for i in range(len(v))]
rnd = _r.Random(SEED)
def vec(cls, gen, what, steps=120):
    v, m = cls(), []
    for k in range(steps):
        op = rnd.choice(['append', 'append', 'extend', 'insert', 'pop', 'popi', 'set', 'del', 'slice', 'setslice', 'delslice', 'contains', 'count', 'remove', 'clear', 'swap', 'index', 'neg', 'bad', 'iter', 'copy', 'from'])
        x, n = gen(), len(m)
        i = rnd.randrange(n) if n else 0
        a, b = sorted((rnd.randint(0, n), rnd.randint(0, n)))
        def on(o, isv):
            if op == 'append': o.append(x)
            if op == 'extend': o.extend(cls([x, x]) if isv and k % 2 else [x, x])
            if op == 'insert': o.insert(i, x)
            if op == 'pop' and n: return o.pop()
            if op == 'popi' and n: return o.pop(i)
            if op == 'set' and n: o[i] = x
            if op == 'del' and n: del o[i]
            if op == 'slice': return list(o[a:b])
            if op == 'setslice': o[a:b] = (cls([x] * (b - a)) if isv else [x] * (b - a))
            if op == 'delslice': del o[a:b]
            if op == 'contains': return x in o
            if op == 'count': return o.count(x)
            if op == 'remove' and x in m0: o.remove(x)
            if op == 'clear' and k % 5 == 0: o.clear()
            if op == 'swap' and isv:
                w = cls([x]); o.swap(w); ok = list(o) == [x] and list(w) == m0; w.swap(o); return ok
            if op == 'swap': return True
            if op == 'index' and n: return o[i]
            if op == 'neg' and n: return o[-1 - i]
            if op == 'bad':
                try: o[n + 5]
                except IndexError: return 'IndexError'
                return 'nothing'
            if op == 'iter': return list(iter(o))
            if op == 'copy': return list(cls(o)) if isv else list(o)
            if op == 'from': return list(cls(list(m0))) if isv else list(o)
        m0 = list(m)
        want = on(m, False)
        t(f'{what} {op}', lambda: (on(v, True), list(v), len(v), bool(v), v.empty(), v.capacity() >= len(v)), ret=(want, list(m), len(m), bool(m), not m, True))
vec(M.std.vector_int, lambda: rnd.randint(-3, 3), 'vector<int>')
vec(M.std.vector_double, lambda: rnd.randint(-3, 3) / 2, 'vector<double>')
vec(M.std.vector_std_string, lambda: rnd.choice(['', 'a', 'b\x00c', 'ü']), 'vector<string>')
def mp(cls, keys, gen, what, order, steps=80):
    v, m = cls(), {}
    for k in range(steps):
        op = rnd.choice(['set', 'set', 'get', 'del', 'in', 'keys', 'values', 'items', 'iter'])
        key, x = rnd.choice(keys), gen()
        def on(o, isv):
            if op == 'set': o[key] = x
            if op == 'get':
                try: return o[key]
                except KeyError: return 'KeyError'
            if op == 'del':
                try: del o[key]
                except KeyError: return 'KeyError'
            if op == 'in': return (key in o, key in o.keys())
            if op == 'keys': return list(o.keys()) if isv else sorted(o, reverse=order)
            if op == 'values': return list(o.values()) if isv else [o[q] for q in sorted(o, reverse=order)]
            if op == 'items': return [tuple(q) for q in o.items()] if isv else [(q, o[q]) for q in sorted(o, reverse=order)]
            if op == 'iter': return list(o) if isv else sorted(o, reverse=order)
        want = on(m, False)
        t(f'{what} {op}', lambda: (on(v, True), len(v), bool(v)), ret=(want, len(m), bool(m)))
mp(M.std.map_std_string_int, ['', 'a', 'b', 'zz', 'ä'], lambda: rnd.randint(0, 9), 'map<string,int>', False)
mp(M.std.map_int_int_std_greater_int_t, [1, 2, -5, 7], lambda: rnd.randint(0, 9), 'map with another order', True)
t('returned vectors', lambda: (list(M.vi(5)), list(M.vd()), list(M.vb()), list(M.vs()), [list(x) for x in M.vvd()], [a.v for a in M.va()], [b.w for b in M.vB()]), ret=([0, 1, 4, 9, 16], [1.5, 2, 3], [True, False], ['a', 'bb'], [[1], [2, 3]], [3, 3], [1, 1]))
t('returned maps', lambda: (dict(M.msi().items()), {k: v.v for k, v in M.mia().items()}, list(M.mig())), ret=({'a': 1, 'b': 2}, {3: 9}, [3, 2, 1]))
v = M.std.vector_int([5, 6])
t('argument is the vector itself', lambda: (M.sum(v), M.push(v, 7), list(v), M.sum(v)), ret=(11, None, [5, 6, 7], 18), ev=['sum(2)', 'sum(3)'])
m = M.std.map_std_string_int()
t('argument is the map itself', lambda: (M.put(m, 'x', 4), m['x'], m.__setitem__('y', 5), M.show(m)), ret=(None, 4, None, 'x=4;y=5;'))
h = M.H()
t('member aliases, reference is seen', lambda: (h.v.append(3), h.sz(), list(h.r()), list(h.v), h.sz(), h.m.__setitem__('q', 1), M.show(h.m)), ret=(None, 3, [1, 2, 3], [1, 2, 3], 3, None, 'q=1;'))
t('element aliases', lambda: (lambda w: (setattr(w[0], 'v', 77), [a.v for a in w]))(M.va()), ret=(None, [77, 3]))
t('element type is enforced', lambda: v.append('x'), exc='TypeError')
t('other vector type', lambda: M.sum(M.vd()), exc='TypeError')
t('shared elements', lambda: (lambda w: (w[0].v, w[1], w.append(M.n.A(8)), w[2].v))(M.vsp()), ret=(1, None, None, 8))
"""

RAW = r"""
t('names', lambda: [k for k in sorted(vars(M.std)) if k.startswith(('vector', 'map')) and 'greater' not in k], ret=['map_int_n_A_t', 'map_std_string_int_t', 'vector_double_t', 'vector_int_t', 'vector_n_A_t', 'vector_n_B_t', 'vector_std_string_t', 'vector_std_vector_double_t'])
v = M.vi(3)
t('vector interface', lambda: (v.size(), v.at(2), v[1], v.push_back(9), v.size(), v.back(), v.front(), v.pop_back(), v.size(), v.empty()), ret=(3, 4, 1, None, 4, 9, 0, None, 3, False))
t('range', lambda: v.at(99), exc='IndexError')
t('construct', lambda: (M.std.vector_int_t().size(), M.std.vector_int_t(4).size(), M.std.vector_int_t(2, 8)[1], M.std.vector_int_t(v).size()), ret=(0, 4, 8, 3))
t('same object', lambda: (M.push(v, 50), v.back(), M.sum(v)), ret=(None, 50, 55))
t('resize and clear', lambda: (v.resize(2), v.size(), v.reserve(100), v.capacity() >= 100, v.clear(), v.empty()), ret=(None, 2, None, True, None, True))
t('elements', lambda: (M.va()[0].v, M.va().at(1).v, M.vvd()[1][1], M.vs()[1], M.vs().at(0)), ret=(3, 3, 3.0, 'bb', 'a'))
m = M.msi()
t('map interface', lambda: (m.size(), m['a'], m.at('b'), m.count('a'), m.count('zz'), m.erase('a'), m.count('a'), m.size()), ret=(2, 1, 2, 1, 0, 1, 0, 1))
t('map errors', lambda: m.at('nope'), exc='IndexError')
t('map is itself', lambda: (M.put(m, 'k', 3), m['k'], M.show(m)), ret=(None, 3, 'b=2;k=3;'))
h = M.H()
t('members', lambda: (h.v.size(), h.v.push_back(5), h.sz(), h.v.back()), ret=(2, None, 3, 5))
"""

PYSTL = r"""
t('no container classes', lambda: [k for k in getattr(M, 'std', M).__dict__ if k.startswith(('vector', 'map'))], ret=[])
t('lists', lambda: (M.vi(4), M.vd(), M.vb(), M.vs(), M.vvd(), [a.v for a in M.va()]), ret=([0, 1, 4, 9], [1.5, 2.0, 3.0], [True, False], ['a', 'bb'], [[1.0], [2.0, 3.0]], [3, 3]))
t('dicts', lambda: (M.msi(), {k: v.v for k, v in M.mia().items()}, M.mig()), ret=({'a': 1, 'b': 2}, {3: 9}, {1: 10, 2: 20, 3: 30}))
t('arguments', lambda: (M.sum([1, 2, 3]), M.sum(()), M.show({'b': 1, 'a': 2}), M.join(['x', 'y'])), ret=(6, 0, 'a=2;b=1;', 'x|y|'))
t('wrong element', lambda: M.sum([1, 'x']), exc='TypeError')
h = M.H()
t('member', lambda: (h.v, setattr(h, 'v', [7, 8, 9]), h.sz(), h.v, setattr(h, 'm', {'z': 1}), h.m), ret=([1, 2], None, 3, [7, 8, 9], None, {'z': 1}))
t('member type', lambda: setattr(h, 'v', 'abc'), exc='TypeError')
t('shared', lambda: [x and x.v for x in M.vsp()], ret=[1, None])
"""

HAND = {'t.hpp': r"""
namespace n { struct A { int v = 3; }; }
// primary template, partial and full specialisations have different members
template <class T> struct Sp { int prim = 1; int f() { return 10; } };
template <class T> struct Sp<T *> { int part = 2; int f() { return 20; } };
template <> struct Sp<double> { int full = 3; int f() { return 30; } int g() { return 31; } };
template <class T> struct Pair { T first; T second; Pair(T a, T b) : first(a), second(b) {} T sum() const { return first + second; } template <class U> U conv(U u) const { return u + (U)first; } Pair<T> swapped() const { return Pair<T>(second, first); } static T zero() { return T(); } bool operator==(Pair const &o) const { return first == o.first && second == o.second; } Pair operator+(Pair const &o) const { return Pair(first + o.first, second + o.second); } T operator[](int i) const { return i ? second : first; } };
// the curiously recurring one, and a base that is a specialisation of another template
template <class D> struct Crtp { int viaD() { return static_cast<D *>(this)->impl(); } int tag = 4; };
struct UseCrtp : Crtp<UseCrtp> { int impl() { return 99; } };
template <class T> struct Mid : Pair<T> { using Pair<T>::Pair; T third = T(); T all() const { return this->first + this->second + third; } };
// a member template class, a template inside a namespace inside a class's enum
struct Outer { template <class T> struct In { T t = T(); int io = 6; }; enum En { ea, eb }; In<int> mk() const { return In<int>(); } };
template <Outer::En E> struct ByEn { int get() const { return E; } };
template <class T> struct Nest { struct Inner { T x = T(); int in = 8; }; Inner inner; Inner make() const { return Inner(); } enum Kind { k0, k1 = 12 }; Kind kind() const { return k1; } typedef T value_type; value_type val(value_type a) const { return a; } };
template <class T> using Alias = Pair<T>;
template <class K, class V = Pair<K>> struct Dflt { V v() const { return V(K(1), K(2)); } };
namespace ns1 { template <class T> struct Same { int w = 1; }; } namespace ns2 { template <class T> struct Same { int w = 2; }; }
template <class R, class... A> struct Fun { int n = sizeof...(A); R call(A... a, int x) const { return R(x + sizeof...(a)); } };
template <class T, T V> struct Const { T get() const { return V; } };
inline Sp<int> sp1() { return {}; } inline Sp<int *> sp2() { return {}; } inline Sp<double> sp3() { return {}; }
inline Pair<int> p1(int a, int b) { return {a, b}; } inline double p2(Pair<double> const &p) { return p.sum(); } inline Alias<long> p3(Alias<long> p) { return p; } inline int p4() { Pair<int> p(1, 2); return p.conv<int>(5) + (int)p.conv<double>(1.5); }
inline Mid<int> mid() { return Mid<int>(1, 2); } inline int sumof(Pair<int> const &p) { return p.sum(); }
inline ByEn<Outer::eb> byen() { return {}; } inline Nest<int> nest() { return {}; } inline Nest<std::string> nests() { return {}; } inline int nin(Nest<int>::Inner const &i) { return i.in + i.x; }
inline Dflt<int> df() { return {}; } inline ns1::Same<int> s1() { return {}; } inline ns2::Same<int> s2() { return {}; } inline ns1::Same<n::A> s3() { return {}; }
inline Fun<int, double, n::A> fun() { return {}; } inline Const<int, -4> co1() { return {}; } inline Const<bool, true> co2() { return {}; } inline Const<unsigned char, 65> co3() { return {}; }
template <class T> T twice(T x) { vt::ev("twice", (int)sizeof(T)); return x + x; } template <> inline int twice<int>(int x) { vt::ev("twice<int>"); return x * 2; }
template <class T> T twice(T a, T b) { vt::ev("twice2", (int)sizeof(T)); return a + b; }
template <class T, class U> std::string two(T, U) { return std::to_string(sizeof(T)) + "/" + std::to_string(sizeof(U)); }
inline void inst() { twice(1); twice(1.5); twice(std::string("x")); twice(1.5, 2.5); two(1, 2.0); two(std::string(), 'c'); }
template <class T> int tagof(Pair<T> const &p) { return sizeof(T); } inline void inst2() { tagof(Pair<int>(1, 2)); tagof(Pair<double>(1, 2)); }
namespace n { template <class T> T nt(T x) { return x; } template <int N> int ni(int x) { return x + N; } inline int inst3() { return nt(3) + ni<4>(1); } }
extern template struct Pair<float>; inline Pair<float> pf() { return {1, 2}; }
""", 'main.hpp': '#include <t.hpp>\n'}
HAND['x.cpp'] = '#include <t.hpp>\ntemplate struct Pair<float>;\n'

HDRV = r"""
t('partial and full specialisations', lambda: (M.sp1().f(), M.sp1().prim, M.sp2().f(), M.sp2().part, M.sp3().f(), M.sp3().full, M.sp3().g()), ret=(10, 1, 20, 2, 30, 3, 31))
t('their members', lambda: (names(M.Sp_int_t), names(M.Sp_int__star__t), names(M.Sp_double_t)), ret=(['f', 'prim'], ['f', 'part'], ['f', 'full', 'g']))
t('values', lambda: (M.Pair_int_t(1, 2).sum(), M.Pair_double_t(1.5, 2).sum(), M.Pair_long_t(2**40, 1).sum(), M.p1(3, 4).second, M.p2(M.Pair_double_t(1, .5)), M.p3(M.Pair_long_t(5, 6)).first), ret=(3, 3.5, 2**40 + 1, 4, 1.5, 5))
t('argument type of the specialisation', lambda: M.Pair_int_t(1.5, 2), exc='TypeError')
t('no mixing', lambda: M.p2(M.Pair_int_t(1, 2)), exc='TypeError')
t('member returns the same specialisation', lambda: (type(M.p1(1, 2).swapped()) is M.Pair_int_t, M.p1(1, 2).swapped().first, M.Pair_int_t.zero()), ret=(True, 2, 0))
t('operators', lambda: ((M.p1(1, 2) + M.p1(3, 4)).second, M.p1(1, 2) == M.p1(1, 2), M.p1(1, 2) == M.p1(1, 3), M.p1(7, 8)[1]), ret=(6, True, False, 8))
t('recurring base', lambda: (M.UseCrtp().viaD(), M.UseCrtp().tag, M.UseCrtp.__bases__[0].__name__), ret=(99, 4, 'Crtp_UseCrtp_t'))
t('template base', lambda: (M.mid().all(), M.mid().sum(), M.sumof(M.mid()), M.Mid_int_t.__bases__ == (M.Pair_int_t,)), ret=(3, 3, 3, True))
t('enum argument', lambda: M.byen().get(), ret=1)
t('nested of template', lambda: (M.nest().inner.in_ if hasattr(M.nest().inner, 'in_') else getattr(M.nest().inner, 'in'), getattr(M.nest().make(), 'in'), M.nin(M.nest().make()), int(M.nest().kind()), M.nest().val(5), M.nests().val('q'), M.nests().make().x), ret=(8, 8, 8, 12, 5, 'q', ''))
t('nested are different', lambda: (M.Nest_int_t.Inner is M.Nest_std_string_t.Inner, type(M.nest().make()) is M.Nest_int_t.Inner), ret=(False, True))
t('nested does not mix', lambda: M.nin(M.nests().make()), exc='TypeError')
t('default argument', lambda: (M.df().v().sum(), type(M.df().v()) is M.Pair_int_t), ret=(3, True))
t('same name in two namespaces', lambda: (M.s1().w, M.s2().w, type(M.s1()) is M.ns1.Same_int_t, type(M.s2()) is M.ns2.Same_int_t, type(M.s3()) is M.ns1.Same_n_A_t), ret=(1, 2, True, True, True))
t('packs', lambda: (M.fun().n, M.fun().call(1.0, M.n.A(), 5)), ret=(2, 7))
t('constants', lambda: (M.co1().get(), M.co2().get(), M.co3().get()), ret=(-4, True, 65))
t('function templates', lambda: (M.twice(4), M.twice(1.25), M.twice('ab')), ret=(8, 2.5, 'abab'), ev=['twice<int>()', 'twice(8)', 'twice(%d)' % 32])
t('overloaded function templates', lambda: M.twice(1.5, 2.0), ret=3.5, ev=['twice2(8)'])
t('two parameters', lambda: (M.two(1, 2.0), M.two('s', 'c')), ret=('4/8', '32/1'))
t('no other instantiations', lambda: M.two(1, 'c'), exc='TypeError')
t('by specialisation', lambda: (M.tagof(M.Pair_int_t(1, 2)), M.tagof(M.Pair_double_t(1, 2))), ret=(4, 8))
t('in a namespace', lambda: (M.n.nt(3), M.n.ni(1)), ret=(3, 5))
t('extern template', lambda: (M.pf().sum(), type(M.pf()) is M.Pair_float_t), ret=(3.0, True))
t('class member template', lambda: (M.Outer().mk().io, M.Outer().mk().t) if hasattr(M.Outer, 'mk') else (6, 0), ret=(6, 0))
"""


def shared_case(r):
    """one specialisation used by many headers, in different spellings: bound once"""
    h = {'base.hpp': 'namespace q { struct A { int v = 3; }; template <class T> struct Box { T t = T(); int id() const { return 7; } Box<T> same() const { return *this; } }; typedef Box<A> BoxA; template <class T> using B2 = Box<T>; }\n'}
    d = ''
    sp = ['q::Box<q::A>', 'q::BoxA', 'q::B2<q::A>', '::q::Box< ::q::A >', 'struct q::Box<struct q::A>', 'const q::BoxA']
    for i in range(8):
        s = r.choice(sp)
        w = r.choice(['', 'w1', 'w2'])
        b = f'inline {s} f{i}() {{ return {{}}; }} inline int g{i}({s} const &x) {{ return x.id() + {i}; }} inline int k{i}(std::shared_ptr<{r.choice(sp[:4])}> x) {{ return x->id(); }}'
        if r.random() < .5: b = 'using namespace q; ' + b.replace('q::BoxA', 'BoxA').replace('::BoxA', 'BoxA') if w else b
        h[f'h{i}.hpp'] = '#include <base.hpp>\n' + (f'namespace {w} {{ {b} }}\n' if w else b + '\n')
        m = f'M.{w}' if w else 'M'
        d += f't("header {i}", lambda: (type({m}.f{i}()) is M.q.Box_q_A_t, {m}.g{i}({m}.f{i}()), {m}.k{i}({m}.f{i}()), {m}.f{i}().same().id()), ret=(True, {7 + i}, 7, 7))\n'
    d += 't("one class", lambda: [k for k in vars(M.q) if "Box" in k], ret=["Box_q_A_t"])\n'
    return h, d


def cases(check, rng, tier):
    s = [grid(f'grid-{i}', rng.randrange(10**9), 14) for i in range(nworlds(tier, 10, 150))]
    for i in range(nworlds(tier, 1, 6)): s.append(scen(f'containers-{i}', CONT, f'SEED = {rng.randrange(10**9)}\n' + CDRV, config=BIND))
    s.append(scen('containers-raw', ''.join(l + '\n' for l in CONT.split('\n') if ' vsp()' not in l and ' vb()' not in l), RAW))
    s.append(scen('containers-python', CONT, PYSTL, config='+include <pybind11/stl.h>\n+python_builtin std::vector\n+python_builtin std::map\n'))
    s.append(scen('containers-option', CONT, PYSTL, args=['--include-pybind11-stl']))
    s.append(scen('hand', HAND, HDRV, extra_src=['x.cpp']))
    for i in range(nworlds(tier, 3, 20)): s.append(scen(f'shared-{i}', *shared_case(random.Random(rng.random()))))
    return s


CHECK = Check('C20', 'exploration', 'behaviour monitor per specialisation and container-interface model', 'one observation per operation on a specialisation or container, compared with the model; distinct: distinct (case, operation)', cases,
              assumptions=['specialisations whose Python names would be the same (X<a_b> and X<a::b>) are not generated: the naming scheme does not tell them apart'])
