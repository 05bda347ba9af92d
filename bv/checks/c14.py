"""C14: every configuration line and option takes effect, wherever and however it is written, or is rejected."""
import random
import re
from ..core import Check, read_tree
from ..scen import PRE, DPRE, seeds, nworlds

SRC = r'''
#include <vector>
namespace n1 { struct A { int v = 1; }; inline int f1() { return 1; } namespace in { inline int g() { return 2; } } }
namespace n2 { struct B { int v = 2; }; inline int f2() { return 2; } }
namespace n3 { struct C { int v = 3; int w = 4; int z = 5; }; struct C2 { int v = 3; }; struct C3 { int v = 1; }; enum E { e1 }; enum class S { s1 }; enum class S2 { s2 }; inline int f3() { return 3; } inline int f4() { return 4; } inline int f5() { return 5; } struct Sub { int v = 1; }; struct D { int m() { return 1; } int k() { return 2; } static int st() { return 3; } Sub s; int got() { return s.v; } Sub &me() { return s; } Sub *mine() { return &s; } static D &sme() { static D d; return d; } static D *smine() { static D d; return &d; } }; }
namespace skip { struct Z { int v = 9; }; struct Z2 { int v = 9; }; inline int zf() { return 7; } inline int zg() { return 8; } enum class ZE { q }; }
namespace ml { struct L { int v = 1; }; }  namespace ml2 { struct L2 { int v = 1; }; }
namespace bp { struct P { int v = 1; }; struct P2 { int v = 1; }; }
namespace cb { struct X { int v = 1; }; struct Y { int v = 1; }; struct W { int v = 2; }; }
namespace nb { struct Q { int v = 1; }; } namespace na { struct R { int v = 1; }; }
namespace tr { struct T { virtual ~T() {} virtual int foo(int a) { return a; } virtual int bar(int a) { return a; } }; inline int cfoo(T &t) { return t.foo(1); } inline int cbar(T &t) { return t.bar(2); } }
namespace pb { struct Opt { int v = 4; }; inline int take(Opt const &o) { return o.v; } }
'''
HOOKS = r'''#pragma once
#include <pybind11/pybind11.h>
#include <vt/vt.hpp>
#include <a.hpp>
namespace hk { inline void bx(pybind11::module &m) { m.attr("X_mark") = 1; } inline void by(pybind11::module &m) { m.attr("Y_mark") = 1; }
template <typename C> void aw(C &cl) { cl.def("extra", [](pybind11::object) { return 6; }); }
inline void nbind(pybind11::module &m) { m.attr("nb_mark") = 1; } inline void nadd(pybind11::module &m) { m.attr("na_mark") = 1; }
template <typename C, typename T, typename... A> int tfoo(T *p, std::string const &, std::string const &, A... a) { return 500; } template <typename C, typename T, typename... A> int tbar(T *p, std::string const &, std::string const &, A... a) { return 600; }
struct Guard { Guard() { vt::put("enter"); } ~Guard() { vt::put("leave"); } }; }
'''
OPT = r'''#pragma once
#include <pybind11/pybind11.h>
#include <a.hpp>
namespace pybind11 { namespace detail { template <> struct type_caster<pb::Opt> { static constexpr auto name = const_name("Opt"); pb::Opt value; bool load(handle h, bool) { value.v = (int)PyLong_AsLong(h.ptr()); return true; } template <typename T> using cast_op_type = movable_cast_op_type<T>; operator pb::Opt *() { return &value; } operator pb::Opt &() { return value; } operator pb::Opt &&() && { return std::move(value); } static handle cast(pb::Opt const &p, return_value_policy, handle) { return PyLong_FromLong(p.v); } }; } }
'''
REP = '#pragma once\n#include <vt/vt.hpp>\nnamespace { struct Rep_%s { Rep_%s() { vt::put("inc %s"); } } rep_%s; }\n'

IS_LOCAL = 'any(k.startswith("__pybind11_module_local_") for k in {}.__dict__)'
# (line, observation, value with the line, value without)
D = [
    ('-namespace n1::in', 'hasattr(ns("n1"), "in") and hasattr(getattr(ns("n1"), "in"), "g")', False, True),
    ('-namespace skip', 'hasattr(M, "skip") and hasattr(M.skip, "zg")', False, True),
    ('+class skip::Z', 'hasattr(M, "skip") and hasattr(M.skip, "Z")', True, None),
    ('+function skip::zf', 'hasattr(M, "skip") and hasattr(M.skip, "zf")', True, None),
    ('+enum skip::ZE', 'hasattr(M, "skip") and hasattr(M.skip, "ZE")', True, None),
    ('-class n3::C2', 'hasattr(ns("n3"), "C2")', False, True),
    ('-class n3::C3', 'hasattr(ns("n3"), "C3")', False, True),
    ('-function n3::f4', 'hasattr(ns("n3"), "f4")', False, True),
    ('-function n3::f5', 'hasattr(ns("n3"), "f5")', False, True),
    ('-function n3::D::k', 'hasattr(ns("n3").D, "k")', False, True),
    ('-enum n3::S', 'hasattr(ns("n3"), "S")', False, True),
    ('-enum n3::S2', 'hasattr(ns("n3"), "S2")', False, True),
    ('-field n3::C::w', 'hasattr(ns("n3").C, "w")', False, True),
    ('-field n3::C::z', 'hasattr(ns("n3").C, "z")', False, True),
    ('+module_local_namespace ml', IS_LOCAL.format('ns("ml").L'), True, False),
    ('+module_local_namespace ml2', IS_LOCAL.format('ns("ml2").L2'), True, False),
    ('+buffer_protocol bp::P', 'buf(ns("bp").P())', True, False),
    ('+buffer_protocol bp::P2', 'buf(ns("bp").P2())', True, False),
    ('+binder cb::X hk::bx', '(hasattr(ns("cb"), "X_mark"), hasattr(ns("cb"), "X"))', (True, False), (False, True)),
    ('+binder cb::Y hk::by', '(hasattr(ns("cb"), "Y_mark"), hasattr(ns("cb"), "Y"))', (True, False), (False, True)),
    ('+add_on_binder cb::W hk::aw', 'hasattr(ns("cb").W, "extra")', True, False),
    ('+binder_for_namespace nb hk::nbind', '(hasattr(ns("nb"), "nb_mark"), hasattr(ns("nb"), "Q"))', (True, False), (False, True)),
    ('+add_on_binder_for_namespace na hk::nadd', '(hasattr(ns("na"), "na_mark"), hasattr(ns("na"), "R"))', (True, True), (False, True)),
    ('+trampoline_member_function_binder tr::T::foo hk::tfoo', 'ns("tr").cfoo(Tr())', 500, 41),
    ('+trampoline_member_function_binder tr::T::bar hk::tbar', 'ns("tr").cbar(Tr())', 600, 42),
    ('+prefix_for_static_member_functions st_', '(hasattr(ns("n3").D, "st_st"), hasattr(ns("n3").D, "st"))', (True, False), (False, True)),
    ('+default_call_guard hk::Guard', '(take(), ns("n1").f1(), take())[2]', ['enter', 'leave'], []),
    ('+default_member_lvalue_reference_return_value_policy pybind11::return_value_policy::reference', '(lambda d: (setattr(d.me(), "v", 5), d.got())[1])(ns("n3").D())', 5, 1),
    ('+default_member_pointer_return_value_policy pybind11::return_value_policy::copy', '(lambda d: (setattr(d.mine(), "v", 5), d.got())[1])(ns("n3").D())', 1, None),
    ('+default_static_lvalue_reference_return_value_policy pybind11::return_value_policy::reference', '(lambda a, b: a is b)(sm("sme"), sm("sme"))', True, False),
    ('+default_static_pointer_return_value_policy pybind11::return_value_policy::copy', '(lambda a, b: a is b)(sm("smine"), sm("smine"))', False, None),
    ('+include <raw_i1.hpp>', '"inc i1" in E', True, False),
    ('+include <raw_i2.hpp>', '"inc i2" in E', True, False),
    ('+include_for_class n3::C <raw_i3.hpp>', '"inc i3" in E', True, False),
    ('+include_for_class n3::C <raw_i6.hpp>', '"inc i6" in E', True, False),
    ('+include_for_namespace n2 <raw_i4.hpp>', '"inc i4" in E', True, False),
    ('+include_for_namespace n2 <raw_i5.hpp>', '"inc i5" in E', True, False),
    ('+include <raw_i#7.hpp>', '"inc i7" in E', True, False),
    ('+python_builtin pb::Opt', '(hasattr(ns("pb"), "Opt"), ns("pb").take(12) if not hasattr(ns("pb"), "Opt") else 0)', (False, 12), (True, 0)),
    ('+pybind11_include_file raw_pb.hpp', '"inc pb" in E', True, False),
]
BASE = ['+include <raw_hooks.hpp>']
DRV = '''
import driver_rt
E = list(driver_rt.IMPORT_EVENTS)
def buf(o):
    try: memoryview(o)
    except BufferError: return True
    except TypeError: return False
def sm(n):
    c = ns("n3").D
    return (getattr(c, n, None) or getattr(c, "st_" + n))()
class Tr(ns("tr").T):
    def foo(self, a): return 40 + a
    def bar(self, a): return 40 + a
'''


def files():
    fs = {'raw_opt.hpp': OPT, 'a.hpp': PRE + SRC, 'raw_hooks.hpp': HOOKS, 'main.hpp': '#include <a.hpp>\n', 'raw_pb.hpp': '#pragma once\n#include <pybind11/pybind11.h>\n' + (REP % (('pb',) * 4))[13:]}
    for i in range(1, 7): fs[f'raw_i{i}.hpp'] = REP % ((f'i{i}',) * 4)
    fs['raw_i#7.hpp'] = REP % (('i7',) * 4)
    return fs


NOISE = ['', '# a comment', '#', '# +namespace zzz', '#-class n3::C', '#+binder', '# ' + 'x' * 3000, '#\t', '#\\']


def style(r, lines):
    """the same directives written differently: line ends, blank and comment lines, white space"""
    eol = r.choice(['\n', '\n', '\r\n'])
    out = []
    for l in lines:
        for _ in range(r.choice([0, 0, 0, 1, 2])): out.append(r.choice(NOISE))
        tok, rest = l.split(' ', 1)
        parts = rest.split(' ')
        s = tok + ' ' + ' ' * r.choice([0, 0, 0, 1, 4]) + parts[0]
        for p in parts[1:]: s += r.choice([' ', ' ', '   ', '\t', ' \t ', '\t ', '\t\t']) + p
        s += r.choice(['', '', '', ' ', '   ', '\t'])
        out.append(s)
    t = ''
    for i, l in enumerate(out): t += l + (r.choice(['\n', '\r\n']) if r.random() < .05 else eol)
    if r.random() < .4 and t: t = t.rstrip('\r\n')
    return t


def order(r, lines):
    """shuffle, but lines with the same token keep their order"""
    l = list(lines)
    r.shuffle(l)
    by = {}
    for x in lines: by.setdefault(x.split()[0][1:], []).append(x)
    return [by[x.split()[0][1:]].pop(0) for x in l]


def effects(seed):
    """a random set of directives in a random order and style: each one has its effect, and no other has"""
    def run(ctx):
        r = random.Random(seed)
        p = r.choice([.3, .6, .9, 1])
        on = [d for d in D if r.random() < p]
        lines = [d[0] for d in on]
        drv = DRV
        for l, obs, w, wo in D:
            v = w if l in lines else wo
            if v is None and l.startswith('+') and 'skip::' in l: v = '-namespace skip' not in lines
            if v is None: continue
            if 'smine' in obs and l not in lines: continue
            drv += f't({("with " if l in lines else "without ") + l!r}, lambda: {obs}, ret={v!r})\n'
        ctx.stat('directives', len(lines))
        allp = BASE + (['+include <raw_opt.hpp>'] if '+python_builtin pb::Opt' in lines else []) + lines
        if r.random() < .3: allp = allp + r.sample(lines, min(3, len(lines)))  # said twice
        ctx.project(files(), DPRE + drv, config=style(r, order(r, allp)).encode(), bind=[''])
    return f'effects-{seed}', run


def tree(ctx, config, out, **kw):
    import shutil
    rc, o, e = ctx.binder(config=config.encode() if isinstance(config, str) else config, bind=[''], out=out, **kw)
    t = {f: re.sub(rb'[ \t]+', b' ', b) for f, b in read_tree(ctx.wd / out).items()}  # white space within a line is not an effect
    shutil.rmtree(ctx.wd / out)
    return rc, t, o + e


def positions(part):
    """each directive alone, first, in the middle and last of a file: same output; and different from the one without it"""
    def run(ctx):
        r = random.Random(f'{ctx.check.seed}-{part}')
        ctx.src(files())
        for i, (l, *_) in enumerate(D):
            if i % 4 != part: continue
            pool = [d[0] for d in D if d[0] != l and d[0] != '-namespace skip' or l.split()[1].startswith('skip::') and d[0] == '-namespace skip']
            pool = [x for x in pool if x != l]
            others = order(r, r.sample(pool, 6) + (['-namespace skip'] if 'skip::' in l else []))
            others = [x for k, x in enumerate(others) if x not in others[:k]]
            rc0, without, e0 = tree(ctx, '\n'.join(BASE + others) + '\n', 'o')
            rc1, ref, e1 = tree(ctx, '\n'.join(BASE + others + [l]) + '\n', 'o')
            if not ctx.ok(rc0 == 0 and rc1 == 0, f'{l}: accepted', e0[-200:] + e1[-200:]): continue
            ctx.ok(ref != without, f'{l}: has an effect', f'output with and without the line is the same; other lines: {others}')
            same = [x for x in others if x.split()[0] == l.split()[0] or x.split()[0][1:] == l.split()[0][1:]]
            for k in range(ctx.check.tier == 'quick' and 3 or 8):
                ls = [x for x in others if x not in same]
                g = order(r, BASE + ls)
                at = r.choice([0, len(g), r.randint(0, len(g))])
                for x in reversed(same + [l]): g.insert(at, x)
                if '+include' == l.split()[0]: g = BASE + [x for x in g if x not in BASE]
                text = style(r, g)
                rc, got, e = tree(ctx, text, 'o')
                ctx.ok(rc == 0 and got == ref, f'{l}: variant {k}', lambda: f'rc={rc} {e[-200:]}\noutput differs for\n{text!r}\n' + str([f for f in set(ref) | set(got) if ref.get(f) != got.get(f)]))
    return f'positions-{part}', run


BAD = ['namespace n1', '+namespace', '-class', '+foo bar', '-foo bar', '+Namespace n1', '+namespaces n1', '++namespace n1', '+-namespace n1', '*namespace n1', '+ namespace n1', '// a comment', '; x', 'garbage', '+binder cb::X', '+add_on_binder cb::W', '+binder_for_namespace nb', '+add_on_binder_for_namespace na', '+include_for_class n3::C', '+include_for_namespace n2', '+trampoline_member_function_binder tr::T::foo', '-include_for_class n3::C <raw_i3.hpp>', '-include_for_namespace n2 <raw_i4.hpp>', '\ufeff+namespace n1', '=namespace x', '+classn3::C x', '+include_for_classes n3::C <x>', '-binder_for_namespaces nb x', '+default_pointer_return_value_policy x', '+call_guard x', '+binder cb::X ', '"+namespace n1"', '+']


def rejected(part):
    def run(ctx):
        r = random.Random(f'{ctx.check.seed}-bad-{part}')
        ctx.src(files())
        for i, b in enumerate(BAD):
            if i % 3 != part: continue
            good = BASE + [d[0] for d in D]
            good = r.sample(good, r.randint(0, 10))
            for where in ('first', 'last', 'middle'):
                at = {'first': 0, 'last': len(good), 'middle': r.randint(0, len(good))}[where]
                eol = r.choice(['\n', '\r\n'])
                text = eol.join(good[:at] + [b] + good[at:]) + (eol if r.random() < .7 else '')
                rc, o, e = ctx.binder(config=text.encode(), bind=[''], out='o')
                msg = o + e
                ctx.ok(rc != 0, f'{b!r} {where}: rejected', f'exit status 0 for {text!r}')
                key = b.strip() if b.strip() else 'onfig'
                named = key in msg or (b[:1] in '+-' and b[1:].split(' ')[0] in msg and len(b) > 1)
                ctx.ok(named, f'{b!r} {where}: named in the message', msg[-500:])
                made = [f for f in read_tree(ctx.wd / 'o')]
                ctx.ok(not made, f'{b!r} {where}: nothing generated', str(made))
    return f'rejected-{part}', run


def options(ctx):
    """command-line options: equivalent spellings, accumulation, rejection"""
    ctx.src(files())
    import shutil

    def run(args, config=None, main='main.hpp'):
        rc, o, e = ctx.binder(config=config, args=args, out='o')
        t = read_tree(ctx.wd / 'o')
        shutil.rmtree(ctx.wd / 'o')
        return rc, t, o + e
    for name, args, cfg in [
        ('one namespace', ['--bind', 'n1'], '+namespace n1\n'), ('two', ['--bind', 'n1', '--bind', 'n2'], '+namespace n1\n+namespace n2\n'), ('skip', ['--bind', 'n1', '--skip', 'n1::in'], '+namespace n1\n-namespace n1::in\n'),
        ('all but', ['--bind', '', '--skip', 'skip', '--skip', 'cb'], '+namespace \n-namespace skip\n-namespace cb\n'), ('three skips', ['--bind=', '--skip=skip', '--skip=n1', '--skip=n2'], '+namespace \n-namespace n1\n-namespace n2\n-namespace skip\n'),
    ]:
        a, b = run(args), run([], cfg)
        ctx.ok(a[0] == 0 and b[0] == 0 and a[1] == b[1] and len(a[1]) > 3, f'{name}: option and directive agree', f'{a[0]} {b[0]} {sorted(a[1])} {sorted(b[1])} {a[2][-300:]}')
        ctx.stat('option_pairs')
        for k in range(len(args) // 2):
            if len(args) < 4 or '=' in args[0]: break
            c = run(args[:2 * k] + args[2 * k + 2:])
            ctx.ok(c[1] != a[1], f'{name}: {args[2 * k:2 * k + 2]} matters', 'same output without it')
    a, b, c = run(['--bind', 'n1'], '+namespace n2\n'), run(['--bind', 'n1', '--bind', 'n2']), run([], '+namespace n1\n+namespace n2\n')
    ctx.ok(a[1] == b[1] == c[1], 'options add to the configuration', '')
    base = run(['--bind', ''])
    for o in (['--annotate-functions'], ['--annotate-includes'], ['--flat'], ['--single-file'], ['--trace'], ['--skip-line-number'], ['--max-file-size', '1'], ['--include-pybind11-stl']):
        a = run(['--bind', ''] + o)
        ctx.ok(a[0] == 0 and a[1] != base[1], f'{o} has an effect', a[2][-300:])
        b = run(o + ['--bind', ''])
        ctx.ok(a[1] == b[1], f'{o} position', '')
    # ... also together with directives of every kind
    cfg = '\n'.join(BASE + [d[0] for d in D]) + '\n'
    base = run(['--bind', ''], cfg)
    for o in (['--annotate-functions'], ['--annotate-includes'], ['--flat'], ['--single-file'], ['--trace'], ['--skip-line-number'], ['--max-file-size', '1'], ['--include-pybind11-stl']):
        a = run(['--bind', ''] + o, cfg)
        ctx.ok(a[0] == 0 and base[0] == 0 and a[1] != base[1], f'{o} has an effect together with directives', a[2][-300:] + base[2][-300:])
    for bad in (['--no-such-option'], ['--max-file-size', 'many'], ['--max-file-size'], ['--flat=maybe'], ['--root-module', 'again'], ['--config', '/nonexistent/file.config'], ['--bind']):
        rc, o, e = ctx.binder(bind=['n1'] if bad != ['--bind'] else None, args=bad, out='o')
        if bad in (['--max-file-size'], ['--bind']): continue  # they take the source file as their value
        ctx.ok(rc != 0, f'{bad} rejected', o[-200:] + e[-200:])
        ctx.ok(any(w.strip('-').split('=')[0] in o + e for w in bad), f'{bad} named', (o + e)[-400:])
    # contradictions are errors, not guesses
    for args, cfg in [(['--bind', 'n1', '--skip', 'n1'], None), ([], '+namespace n1\n-namespace n1\n'), (['--bind', 'n1'], '-namespace n1\n'), (['--skip', 'n1'], '+namespace n1\n')]:
        rc, t, m = run(args, cfg)
        ctx.ok(rc != 0 and 'n1' in m, f'contradiction {args} {cfg}', f'{rc} {m[-300:]}')


def cases(check, rng, tier):
    return [effects(s) for s in seeds(rng, nworlds(tier, 8, 100))] + [positions(p) for p in range(4)] + [rejected(p) for p in range(3)] + [('options', options)]


CHECK = Check('C14', 'exploration', 'effect monitor per directive in the running module, byte comparison of outputs over positions and spellings, and rejection monitor for malformed lines',
              'one observation per directive effect, compared output or rejected line; non-trivial = distinct (case, line, variant)', cases,
              assumptions=['directives with a sign the documentation does not give them are not exercised', 'lines of the same kind keep their relative order when files are rearranged'])
