"""C16: custom binders, add-ons, namespace binders, trampoline functions and includes act exactly where they are configured."""
import random
from ..core import Check
from ..scen import PRE, DPRE, scen, seeds, nworlds

HOOK_PRE = '''#pragma once
#include <pybind11/pybind11.h>
#include <vt/vt.hpp>
#include <algorithm>
#include <vector>
namespace hk {
inline std::string mname(pybind11::module &m) { return pybind11::str(m.attr("__name__")); }
// public names of a module that are not submodules
inline std::string content(pybind11::module &m) { std::vector<std::string> v; pybind11::dict d = m.attr("__dict__"); for( auto i : d ) { std::string k = pybind11::str(i.first); if( k.substr(0, 2) != "__" and !PyModule_Check(i.second.ptr()) ) v.push_back(k); } std::sort(v.begin(), v.end()); std::string r; for( auto &k : v ) r += (r.size() ? " " : "") + k; return r; }
template <typename C> std::string cname(C &cl) { return std::string(pybind11::str(cl.attr("__module__"))) + "." + std::string(pybind11::str(cl.attr("__qualname__"))); }
'''
IMPORT = 'import driver_rt\nE = list(driver_rt.IMPORT_EVENTS)\n'


def nest(ns, t):
    for n in ns.split('::')[::-1] if ns else []: t = f'namespace {n} {{ {t} }}'
    return t + '\n'


def hooks(seed):
    def run(ctx):
        r = random.Random(seed)
        spaces = r.sample(['a', 'a::b', 'a::b::c', 'aa', 'd'], r.randint(2, 4)) + ([''] if r.random() < .4 else [])
        src, hk, cfg, ev, drv = '', HOOK_PRE, ['+include <raw_hooks.hpp>'], [], ''
        nsmode = {s: r.choice(['no', 'no', 'no', 'replace', 'add', 'add']) if s else 'no' for s in spaces}
        decls, k, bases = {s: [] for s in spaces}, 0, []
        for s in spaces:
            mod = 'mod' + ''.join('.' + p for p in s.split('::') if p)
            q = lambda n: f'{s}::{n}' if s else n
            for _ in range(r.randint(1, 5)):
                k += 1
                kind = r.choice(['plain', 'plain', 'template', 'template2', 'nested', 'virtual', 'function', 'enum'])
                hook = r.choice(['no', 'binder', 'addon', 'addon']) if kind not in ('function', 'enum') else 'no'
                dead = nsmode[s] == 'replace'
                m = f'ns({s!r})'
                cfgname = q(f'X{k}')
                if kind == 'plain':
                    b = r.choice(bases) if bases and r.random() < .4 else None
                    decls[s].append(f'struct X{k} {": " + b if b else ""} {{ int v{k} = {k}; int get{k}() const {{ return v{k}; }} }};')
                    insts, gen = [(f'X{k}', f'X{k}', '')], [f'get{k}', f'v{k}']
                    if hook != 'binder' and not dead: bases.append('::' + q(f'X{k}'))
                elif kind == 'virtual':
                    decls[s].append(f'struct X{k} {{ int v{k} = {k}; virtual ~X{k}() {{}} virtual int get{k}() const {{ return v{k}; }} }};')
                    insts, gen = [(f'X{k}', f'X{k}', '')], [f'get{k}', f'v{k}']
                elif kind == 'nested':
                    decls[s].append(f'struct O{k} {{ int w = 1; struct X{k} {{ int v{k} = {k}; }}; }};')
                    cfgname = q(f'O{k}::X{k}')
                    insts, gen = [(f'O{k}::X{k}', f'O{k}.X{k}', '')], [f'v{k}']
                    if hook == 'binder': drv += '' if dead else f't("outer O{k}", lambda: names({m}.O{k}), ret=["w"])\n'
                elif kind == 'template':
                    decls[s].append(f'template <typename T> struct X{k} {{ T v{k}{{}}; T get{k}() const {{ return v{k}; }} }}; inline int use{k}(X{k}<int> a, X{k}<double> b) {{ return 1; }}')
                    insts, gen = [(f'X{k}<int>', f'X{k}_int_t', 'int'), (f'X{k}<double>', f'X{k}_double_t', 'double')], [f'get{k}', f'v{k}']
                elif kind == 'template2':
                    decls[s].append(f'template <typename T, int N = 3> struct X{k} {{ T v{k}{{}}; int n{k}() const {{ return N; }} }}; inline int use{k}(X{k}<char, 2> a, X{k}<float> b) {{ return 1; }}')
                    insts, gen = [(f'X{k}<char, 2>', f'X{k}_char_2_t', 'char,2'), (f'X{k}<float>', f'X{k}_float_3_t', 'float,3')], [f'n{k}', f'v{k}']
                elif kind == 'function':
                    decls[s].append(f'inline int fn{k}(int a = {k}) {{ return a; }}')
                    if not dead: drv += f't("fn{k}", lambda: {m}.fn{k}(), ret={k})\n'
                    continue
                else:
                    decls[s].append(f'enum class En{k} {{ p{k} }};')
                    if not dead: drv += f't("En{k}", lambda: int({m}.En{k}.p{k}), ret=0)\n'
                    continue
                cq = '::' + cfgname
                if hook == 'binder':
                    if kind == 'template': sig, T, args = 'template <typename T>', f'{cq}<T>', ', std::string const &n'
                    elif kind == 'template2': sig, T, args = 'template <typename T, int N>', f'{cq}<T, N>', ', std::string const &n, std::string const &n2'
                    else: sig, T, args = 'inline', cq, ''
                    a = ' + " " + n' if kind == 'template' else ' + " " + n + "," + n2' if kind == 'template2' else ''
                    py = '"Mine%d"' % k + (' + std::string("_") + n' if 'template' in kind else '')
                    hk += f'{sig} void bind{k}(pybind11::module &m{args}) {{ vt::put("bind{k} " + mname(m){a}); pybind11::class_<{T}, std::shared_ptr<{T}>>(m, ({py}{"" if "template" in kind else ""}){".c_str()" if "template" in kind else ""}).def(pybind11::init<>()).def("mine", [](pybind11::object) {{ return {k}; }}); }}\n'
                    cfg.append(f'+binder {cfgname}{r.choice([" ", "  ", chr(9)])}hk::bind{k}')
                    if not dead:
                        for c, p, a in insts:
                            ev.append(f'bind{k} {mod}' + (' ' + a if a else ''))
                            pn = f'Mine{k}' + ('_' + a.split(',')[0] if a else '')
                            drv += f't("custom {c}", lambda: ({m}.{pn}().mine(), names({m}.{pn})), ret=({k}, ["mine"]))\nt("no generated {c}", lambda: hasattr({m}, {p.split(".")[-1]!r}), ret=False)\n'
                elif hook == 'addon':
                    hk += f'template <typename C> void add{k}(C &cl) {{ vt::put("add{k} " + cname(cl)); cl.def("extra{k}", [](pybind11::object) {{ return {k}; }}); }}\n'
                    cfg.append(f'+add_on_binder {cfgname}{r.choice([" ", "   "])}hk::add{k}')
                    if not dead:
                        for c, p, a in insts:
                            ev.append(f'add{k} {mod}.{p}')
                            drv += f't("add-on {c}", lambda: ({m}.{p}().extra{k}(), names({m}.{p})), ret=({k}, {sorted(gen + [f"extra{k}"])!r}))\n'
                elif not dead:
                    for c, p, a in insts: drv += f't("generated {c}", lambda: (type({m}.{p}()).__name__, names({m}.{p})), ret=({p.split(".")[-1]!r}, {gen!r}))\n'
            if nsmode[s] != 'no':
                i = len(cfg)
                hk += f'inline void ns{i}(pybind11::module &m) {{ vt::put("ns{i} " + mname(m) + " [" + content(m) + "]"); m.attr("ns_mark{i}") = {i}; }}\n'
                cfg.append(f'+{"add_on_" if nsmode[s] == "add" else ""}binder_for_namespace {s} hk::ns{i}')
                ev.append(f'ns{i} {mod} []')
                drv += f't("namespace {s}", lambda: ns({s!r}).ns_mark{i}, ret={i})\n'
                if nsmode[s] == 'replace': drv += f't("only the hook in {s}", lambda: sorted(n for n, v in vars(ns({s!r})).items() if n[:2] != "__" and type(v).__name__ != "module"), ret=["ns_mark{i}"])\n'
        order = list(spaces)
        for s in order: src += nest(s, '\n'.join(decls[s]))
        r.shuffle(cfg)
        args = r.choice([[], ['--max-file-size', '1'], ['--max-file-size', '900'], ['--flat'], ['--annotate-includes']])
        pure_replace = sorted(ev)
        drv = IMPORT + f't("hook calls", lambda: sorted(E), ret={pure_replace!r})\n' + drv
        ctx.project({'a.hpp': PRE + src, 'raw_hooks.hpp': HOOK_TOP(src) + hk + '}\n', 'main.hpp': '#include <a.hpp>\n'}, DPRE + drv, config='\n'.join(cfg) + '\n', bind=[''], args=args)
    return f'hooks-{seed}', run


def HOOK_TOP(src): return '#pragma once\n#include <a.hpp>\n'


def includes(seed):
    """every included header reports the translation unit that includes it; every bound class reports the one that binds it"""
    def run(ctx):
        r = random.Random(seed)
        spaces = r.sample(['a', 'a::b', 'ab', 'd', 'd::e'], 3)
        files = {'raw_rep.hpp': '#pragma once\n#include <vt/vt.hpp>\n#define REP_(x) vt::put(std::string(x) + " " + __BASE_FILE__)\n'}
        cfg, src, k, classes, macros = ['+include <raw_all.hpp>', '+include <raw_macros.hpp>'], '', 0, [], '#pragma once\n#include <raw_rep.hpp>\n'

        def header(name, tag): files[name] = f'#pragma once\n#include <raw_rep.hpp>\nnamespace {{ struct Rep_{tag} {{ Rep_{tag}() {{ REP_("inc {tag}"); }} }} rep_{tag}; }}\n'
        header('raw_all.hpp', 'all')
        want = {}  # tag -> classes
        for s in spaces:
            t = ''
            for _ in range(r.randint(1, 4)):
                k += 1
                kind = r.choice(['plain', 'virtual', 'template', 'nested'])
                name = f'{s}::X{k}'
                if kind == 'plain': t += f'struct X{k} {{ int v = {k}; }};\n'
                elif kind == 'virtual': t += f'struct X{k} {{ int v = {k}; virtual ~X{k}() {{}} virtual int f() {{ return 1; }} }};\n'
                elif kind == 'template': t += f'template <typename T> struct X{k} {{ T v{{}}; }}; struct U{k} {{ X{k}<int> a; X{k}<double> b; }};\n'
                else:
                    t += f'struct O{k} {{ int w = 1; struct X{k} {{ int v = {k}; }}; }};\n'
                    name = f'{s}::O{k}::X{k}'
                for n in [name] + ([f'{s}::U{k}'] if kind == 'template' else []) + ([f'{s}::O{k}'] if kind == 'nested' else []):
                    classes.append((s, n))
                    i = len(classes)
                    macros += f'#define ADD_{i}(cl) REP_("bind {n}")\n'
                    cfg.append(f'+add_on_binder {n} ADD_{i}')
            src += nest(s, t)
        for s, n in classes:
            for j in range(r.choice([0, 0, 1, 1, 2])):
                tag = f'c{len(want)}'
                header(f'raw_{tag}.hpp', tag)
                cfg.append(f'+include_for_class {n} <raw_{tag}.hpp>')
                want[tag] = {n}
        for s in spaces:
            for j in range(r.choice([0, 1, 2])):
                tag = f'n{len(want)}'
                header(f'raw_{tag}.hpp', tag)
                cfg.append(f'+include_for_namespace {s} <raw_{tag}.hpp>')
                want[tag] = {n for t, n in classes if t == s}
        r.shuffle(cfg)
        args = r.choice([['--max-file-size', '1'], ['--max-file-size', '1', '--annotate-includes'], [], ['--flat', '--max-file-size', '700']])
        files.update({'a.hpp': PRE + src, 'raw_macros.hpp': macros, 'main.hpp': '#include <a.hpp>\n'})
        drv = IMPORT + f'''
seen = {{}}
for e in E:
    kind, tag, unit = e.split(' ', 2)
    seen.setdefault((kind, tag), []).append(unit)
allunits = set(u for l in seen.values() for u in l)
want = {want!r}
classes = {[n for _, n in classes]!r}
for n in classes: t('bound ' + n, lambda: len(seen.get(('bind', n), [])) >= 1, ret=True)
for tag, cl in want.items():
    t('units with ' + tag + ' for ' + ' '.join(sorted(cl)), lambda: sorted(set(seen.get(('inc', tag), []))), ret=sorted(set(u for n in cl for u in seen.get(('bind', n), []))))
binding = set(u for (k, n), l in seen.items() if k == 'bind' for u in l)
t('all', lambda: binding <= set(seen.get(('inc', 'all'), [])), ret=True)
t('units', lambda: len(binding) >= {2 if len(args) else 1}, ret=True)
'''
        ctx.project(files, DPRE + drv, config='\n'.join(cfg) + '\n', bind=[''], args=args, unity=False, jobs=4)
    return f'includes-{seed}', run


TR = '''
namespace tr {
template <typename C, typename T, typename... A> int one(T *p, std::string const &c, std::string const &f, A... a) { vt::ev("one", c, f, a...); return 1000 + (int)sizeof...(a); }
template <typename C, typename T, typename... A> int two(T const *p, std::string const &c, std::string const &f, A... a) { vt::ev("two", c, f, a...); return p->C::g(a...) + 5000; }
template <typename C, typename T, typename... A> void nothing(T *p, std::string const &c, std::string const &f, A const &...a) { vt::ev("nothing", c, f, a...); }
template <typename C, typename T, typename... A> std::string str(T *p, std::string const &c, std::string const &f, A... a) { vt::ev("str", c, f); return "custom"; }
template <typename C, typename T, typename... A> int where(T *p, std::string const &c, std::string const &f, A... a) { C *base = p; vt::ev("where", c, f, static_cast<int>(std::is_base_of<C, T>::value)); return base->id; } }
'''
CASES = [
 scen('trampoline-functions', TR + '''
namespace a { struct A { int id = 3; virtual ~A() {} virtual int f(int x, std::string s, double d) { vt::ev("A::f"); return 1; } virtual int g(int x) const { vt::ev("A::g", x); return x; } virtual int h(int x) { vt::ev("A::h"); return x; } virtual void v(std::string const &s) { } virtual std::string s() = 0; virtual int nb() { return 2; } };
struct F { int id = 4; virtual ~F() {} virtual int f(int x) { vt::ev("F::f"); return 5; } };
inline int cf(A &a) { return a.f(1, "q", 2.5); } inline int cg(A const &a) { return a.g(7); } inline int ch(A &a) { return a.h(8); } inline void cv(A &a) { a.v("txt"); } inline std::string cs(A &a) { return a.s(); } inline int cn(A &a) { return a.nb(); } inline int cF(F &x) { return x.f(9); } }
namespace b { struct D : a::A { std::string s() override { return "D"; } int extra = 1; virtual int more(int a) { return a; } }; struct E : a::A { int g(int x) const override { vt::ev("E::g", x); return -x; } std::string s() override { return "E"; } int h(int x) override { return 44; } }; }
''', '''
A = ns('a'); B = ns('b')
class P(A.A):
    def f(self, *a): return -1
    def g(self, x): return -2
    def h(self, x): return -3
    def v(self, s): raise RuntimeError('v')
    def s(self): return 'py'
p = P()
t('f', lambda: A.cf(p), ret=1003, ev=["one('a::A','f',1,'q',2.5)"])
t('g', lambda: A.cg(p), ret=5007, ev=["two('a::A','g',7)", 'A::g(7)'])
t('h is not customised', lambda: A.ch(p), ret=-3, ev=[])
t('v', lambda: A.cv(p), ret=None, ev=["nothing('a::A','v','txt')"])
t('s', lambda: A.cs(p), ret='custom', ev=["str('a::A','s')"])
t('nb', lambda: A.cn(p), ret=3, ev=["where('a::A','nb',1)"])
class PF(A.F):
    def f(self, x): return x * 2
t('same name in another class', lambda: A.cF(PF()), ret=18, ev=[])
class Q(B.D):
    def f(self, *a): return -1
    def h(self, x): return -3
    def more(self, a): return a
q = Q()
t('inherited f', lambda: A.cf(q), ret=1003, ev=["one('b::D','f',1,'q',2.5)"])
t('inherited g', lambda: A.cg(q), ret=5007, ev=["two('b::D','g',7)", 'A::g(7)'])
t('inherited h', lambda: A.ch(q), ret=-3, ev=[])
t('inherited nb', lambda: A.cn(q), ret=3, ev=["where('b::D','nb',1)"])
t('overridden s is not customised', lambda: A.cs(q), ret='D', ev=[])
class R(B.E):
    def g(self, x): return x + 100
r = R()
t('overridden g is not customised', lambda: A.cg(r), ret=107, ev=[])
t('overridden h', lambda: A.ch(r), ret=44, ev=[])
t('C++ object', lambda: A.cf(B.E()), ret=1, ev=['A::f()'])
''', config='+trampoline_member_function_binder a::A::f tr::one\n+trampoline_member_function_binder a::A::g tr::two\n+trampoline_member_function_binder a::A::v tr::nothing\n+trampoline_member_function_binder a::A::s tr::str\n+trampoline_member_function_binder a::A::nb tr::where\n', bind=('a', 'b')),
 scen('trampoline-template-nested', TR + '''
namespace a { template <typename T> struct V { int id = 6; virtual ~V() {} virtual int f(T x) { return 1; } virtual int g(T x) const { return 2; } }; inline int use(V<int> a, V<double> b) { return 1; } inline int ci(V<int> &v) { return v.f(3); } inline int cd(V<double> &v) { return v.f(2.5); } inline int cg(V<int> const &v) { return v.g(3); } struct O { struct In { int id = 7; virtual ~In() {} virtual int f(int a, int b = 2) { return 1; } }; }; inline int co(O::In &i) { return i.f(4); } }
struct G { int id = 8; virtual ~G() {} virtual int f() { return 1; } }; inline int cG(G &g) { return g.f(); }
''', '''
A = ns('a')
class P(A.V_int_t):
    def g(self, x): return 77
class Q(A.V_double_t): pass
class I(A.O.In): pass
class Z(M.G): pass
t('int', lambda: A.ci(P()), ret=1001, ev=["one('a::V<int>','f',3)"])
t('double', lambda: A.cd(Q()), ret=1001, ev=["one('a::V<double>','f',2.5)"])
t('other member', lambda: A.cg(P()), ret=77, ev=[])
t('nested', lambda: A.co(I()), ret=1002, ev=["one('a::O::In','f',4,2)"])
t('global', lambda: M.cG(Z()), ret=1000, ev=["one('G','f')"])
''', config='+trampoline_member_function_binder a::V::f tr::one\n+trampoline_member_function_binder a::O::In::f tr::one\n+trampoline_member_function_binder G::f tr::one\n-namespace tr\n'),

 *[scen('suppressed-include-' + nm, {'raw_u.hpp': '#ifndef U_\n#define U_\n#include <vt/vt.hpp>\n#ifndef VIA_WRAPPER\nnamespace { struct RepU { RepU() { vt::put("direct u"); } } repu; }\n#endif\nnamespace u { struct U { int v = 1; }; }\n#endif\n', 'raw_k.hpp': '#ifndef K_\n#define K_\n#include <vt/vt.hpp>\n#ifndef VIA_WRAPPER\nnamespace { struct RepK { RepK() { vt::put("direct k"); } } repk; }\n#endif\nnamespace u { struct K { int v = 1; }; }\n#endif\n', 'raw_w.hpp': '#pragma once\n#define VIA_WRAPPER\n#include <raw_u.hpp>\n#include <raw_k.hpp>\n', 'main.hpp': '#include <raw_u.hpp>\n#include <raw_k.hpp>\n#include <vec.hpp>\n', 'vec.hpp': '#include <raw_u.hpp>\n#include <raw_k.hpp>\nnamespace z { struct Z { u::U u; u::K k; }; }\n'}, IMPORT + '''
t('only the suppressed one is missing', lambda: sorted(set(E)), ret=['direct k'])
t('works', lambda: (ns('u').U().v, ns('u').K().v, ns('z').Z().u.v), ret=(1, 1, 1))
''', config='-include <raw_u.hpp>\n-include <vec.hpp>\n+include <raw_w.hpp>\n+include <vec.hpp>\n', unity=False, args=ag) for nm, ag in (('split', ('--max-file-size', '1')), ('annotated', ('--max-file-size', '1', '--annotate-includes')), ('annotated-one', ('--annotate-includes',)), ('flat', ('--flat',)), ('traced', ('--trace', '--annotate-includes', '--flat')))],

 scen('std-binder', {'raw_vb.hpp': HOOK_PRE + '''
template <typename T, typename A> void vec(pybind11::module &m, std::string const &n, std::string const &) { vt::put("vec " + mname(m) + " " + n); pybind11::class_<std::vector<T, A>, std::shared_ptr<std::vector<T, A>>>(m, ("Vec_" + n).c_str()).def(pybind11::init<>()).def("size", [](std::vector<T, A> const &v) { return v.size(); }).def("push", [](std::vector<T, A> &v, T const &t) { v.push_back(t); }); } }
''', 'a.hpp': '''
#include <vector>
namespace a { struct X { int v = 1; }; inline int one(std::vector<int> const &v) { return (int)v.size(); } inline std::vector<X> two(std::vector<X> v) { v.push_back(X()); return v; } inline std::vector<std::string> three() { return {"q"}; } struct K { std::vector<double> d; std::vector<double> const &get() const { return d; } }; }
''', 'main.hpp': '#include <a.hpp>\n'}, IMPORT + '''
t('calls', lambda: sorted(E), ret=['vec mod.std a_X', 'vec mod.std double', 'vec mod.std int', 'vec mod.std std_string'])
v = ns('std').Vec_int(); v.push(3); v.push(4)
t('int', lambda: ns('a').one(v), ret=2)
t('class', lambda: ns('a').two(ns('std').Vec_a_X()).size(), ret=1)
t('string', lambda: ns('a').three().size(), ret=1)
t('field', lambda: ns('a').K().d.size(), ret=0)
''', config='+binder std::vector hk::vec\n+include <raw_vb.hpp>\n', bind=('a',)),
]


def cases(check, rng, tier):
    return [hooks(s) for s in seeds(rng, nworlds(tier, 14, 160))] + [includes(s) for s in seeds(rng, nworlds(tier, 5, 50))] + CASES


CHECK = Check('C16', 'exploration', 'hook event monitor: every hook, trampoline function and configured header reports when, for what and in which translation unit it is used; compared with the configuration',
              'one observation per hook call list, class, call or header; non-trivial = distinct (project, operation)', cases,
              assumptions=['the module handed to a binder of a nested class is the one of the enclosing namespace', 'a later binder or add-on for the same name replaces the earlier one'])
