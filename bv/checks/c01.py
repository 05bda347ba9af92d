"""C01: every generated file compiles as a translation unit of its own, the files link, and the module imports."""
import random
import re
from ..core import Check
from ..scen import PRE, DPRE, files_of, seeds, nworlds
from ..world import World, PRELUDE

HN = ['a.hpp', 'b/b.hpp', 'b/c.hpp', 'd.h', 'sub/deep/e.hpp', 'f_1.hpp', 'f.hpp', 'g.fwd.hpp']
NS = [[], ['n'], ['n', 'in'], ['m'], ['n_in'], ['m', 'n']]


class Graph:
    """headers that know each other through includes or only through forward declarations; definitions are in impl.cpp"""

    def __init__(self, r, n):
        self.r, self.stl = r, r.random() < .5
        self.h = [dict(name=x, inc=set(), fwd=set(), std=set(), items=[], late=[]) for x in r.sample(HN, n)]
        self.types, self.impl, self.fns, self.k, self.inst = [], [], [], 0, set()
        for i, h in enumerate(self.h):
            for _ in range(r.randint(1, 3)): self.add_type(i)
        for t in self.types: self.fill(t)
        for i, h in enumerate(self.h):
            for _ in range(r.randint(1, 5)): self.add_fn(i)

    def uid(self):
        self.k += 1
        return self.k

    def add_type(self, i):
        r, k = self.r, self.uid()
        kind = r.choice(['class', 'class', 'class', 'enum', 'enumclass', 'tmpl', 'poly', 'tmplv', 'tmplt'])
        en = [x for x in self.types if x['kind'] in ('enum', 'enumclass')]
        if kind == 'tmplv' and not en: kind = 'enum'
        t = dict(kind=kind, name=f'T{k}', ns=r.choice(NS), h=i, k=k, nested=kind in ('class', 'poly') and r.random() < .3, bases=[], lines=[], alias=f'Al{k}' if r.random() < .4 else None)
        t['q'] = '::' + '::'.join(t['ns'] + [t['name']])
        if kind == 'tmplv':
            t['en'] = r.choice(en)
            self.need(i, t['en'], False)
        if kind in ('class', 'poly'):
            prev = [x for x in self.types if x['kind'] in ('class', 'poly')]
            if prev and r.random() < .45:
                b = r.choice(prev)
                if b['h'] != i: self.h[i]['inc'].add(b['h'])
                t['bases'].append(b)
        self.types.append(t)

    def need(self, i, t, full):
        """header i can name t afterwards; full: as a complete type"""
        if t['h'] == i: return
        if t['h'] < i and (full or self.r.random() < .3): self.h[i]['inc'].add(t['h'])
        else:
            self.h[i]['fwd'].add(t['k'])
            if t['kind'] == 'tmplv': self.need(i, t['en'], False)

    def use(self, i, ret=False):
        u = self.use_(i, ret)
        m = re.search(r'std::vector<.*>', u[0])
        if m: self.inst.add(m[0])
        return u

    def use_(self, i, ret):
        """-> (spelling, expression that makes a result in impl.cpp)"""
        r = self.r
        t = r.choice([x for x in self.types])
        full = t['h'] < i
        q = t['q']
        if t['kind'] in ('tmplv', 'tmplt'):
            if t['kind'] == 'tmplv':
                e = t['en']
                if e['h'] >= i: return 'int', '1'
                self.h[i]['inc'].add(e['h'])
                a = ('::' + '::'.join(e['ns']) if e['ns'] else '') + '::' + (e['name'] + '::' if e['kind'] == 'enumclass' else '') + f'c{e["k"]}_{r.choice([0, 1])}'
            else:
                x = [x for x in self.types if x['kind'] == 'tmpl']
                if not x: return 'int', '1'
                x = r.choice(x)
                self.need(i, x, x['h'] < i)
                a = x['q']
            self.need(i, t, full)
            q = f'{q}<{a}>'
            self.inst.add(q)
            return r.choice([(f'{q} const &', f'*new {q}()'), (q, f'{q}()'), (f'{q} *', f'new {q}()'), (f'std::shared_ptr<{q}>', f'std::make_shared<{q}>()')])
        if t['kind'] in ('enum', 'enumclass'):
            self.need(i, t, full)
            f = r.choice(['v', 'v', 'cv'] + (['vec'] if not ret and self.stl else []))
            if f == 'vec':
                self.h[i]['std'].add('vector')
                return f'std::vector<{q}> const &', None
            return {'v': q, 'cv': f'{q} const'}[f], f'{q}()'
        if t['kind'] == 'tmpl':
            a = r.choice(['int', 'double', 'T'])
            if a == 'T':
                x = r.choice([x for x in self.types if x['kind'] in ('class', 'poly', 'enum', 'enumclass')] or [None])
                if x:
                    self.need(i, x, x['h'] < i)
                    a = x['q']
                else: a = 'int'
            self.need(i, t, full)
            q = f'{q}<{a}>'
            self.inst.add(q)  # only instantiated specialisations can be bound
            return r.choice([(f'{q} const &', f'*new {q}()'), (f'{q} &', f'*new {q}()'), (q, f'{q}()'), (f'{q} *', f'new {q}()'), (f'std::shared_ptr<{q}>', f'std::make_shared<{q}>()')])
        if t['nested'] and t['h'] < i and r.random() < .4:
            self.h[i]['inc'].add(t['h'])
            w = r.choice(['In', 'E'])
            if w == 'E': return f'{q}::E', f'{q}::E()'
            return r.choice([(f'{q}::In', f'{q}::In()'), (f'{q}::In const &', f'*new {q}::In()'), (f'{q}::In *', f'new {q}::In()')])
        if t['alias'] and t['h'] < i and r.random() < .5:
            self.h[i]['inc'].add(t['h'])
            q = '::' + '::'.join(t['ns'] + [t['alias']])
        else: self.need(i, t, full)
        f = [(f'{q} &', f'*new {q}()'), (f'{q} const &', f'*new {q}()'), (f'{q} *', f'new {q}()'), (f'const {q} *', f'new {q}()'), (q, f'{q}()'), (f'std::shared_ptr<{q}>', f'std::make_shared<{q}>()'), (f'std::shared_ptr<{q}> const &', None)]
        if not ret:
            f += [(f'std::function<{q} *({q} const &, int)> const &', None), (f'std::function<void({q} &)>', None)]
            if self.stl and r.random() < .25:
                self.h[i]['std'].add('vector')
                f = [(f'std::vector<{q}> const &', None), (f'std::vector<std::shared_ptr<{q}>>', None), (f'std::vector<{q} *> &', None)]
        f = [x for x in f if x[1]] if ret else f
        return r.choice(f)

    def params(self, i):
        return [self.use(i)[0] for _ in range(self.r.choice([0, 1, 1, 2, 3]))]

    def sig(self, i):
        ret = self.use(i, True) if self.r.random() < .6 else ('int', '1')
        return ret, self.params(i)

    def fill(self, t):
        r, i = self.r, t['h']
        L = t['lines']
        for b in t['bases']: pass
        if t['kind'] in ('enum', 'enumclass'): return
        if t['kind'] == 'tmplv':
            L += ['int get() const { return static_cast<int>(V); }']
            return
        if t['kind'] == 'tmplt':
            L += ['F<int> *one() { return nullptr; }', 'int get() const { return 1; }']
            return
        if t['kind'] == 'tmpl':
            L += ['A a{};', 'int get(A const &x) const { return sizeof(x) > 0; }', 'A *ptr() { return &a; }' if r.random() < .5 else 'A const &ref() const { return a; }']
            return
        q = t['q'][2:]
        if t['nested']: L += ['struct In { int v = 1; };', 'enum class E { e0, e1 };', 'In in() const { return In(); }', 'E en() const { return E::e1; }']
        for _ in range(r.randint(0, 3)):
            m = f'm{self.uid()}'
            ret, ps = self.sig(i)
            st, c = r.choice([('static ', ''), ('', ''), ('', ' const'), ('', '')])
            L.append(f'{st}{ret[0]} {m}({", ".join(ps)}){c};')
            self.impl.append(f'{ret[0]} {q}::{m}({", ".join(ps)}){c} {{ return {ret[1]}; }}')
            t.setdefault('m', []).append(m)
        if t['kind'] == 'poly':
            L.append(f'virtual ~{t["name"]}();')
            self.impl.append(f'{q}::~{t["name"]}() {{}}')
            for _ in range(r.randint(1, 3)):
                m = f'v{self.uid()}'
                ret, ps = self.sig(i)
                c = r.choice(['', ' const'])
                L.append(f'virtual {ret[0]} {m}({", ".join(ps)}){c};')
                self.impl.append(f'{ret[0]} {q}::{m}({", ".join(ps)}){c} {{ return {ret[1]}; }}')
                t.setdefault('m', []).append(m)
        for _ in range(r.choice([0, 0, 1, 2])):
            x = r.choice(self.types)
            if x['kind'] not in ('class', 'poly'): continue
            self.need(i, x, x['h'] < i)
            L.append(f'{x["q"]} *f{self.uid()} = nullptr;' if r.random() < .6 else f'std::shared_ptr<{x["q"]}> f{self.uid()};')
        if r.random() < .3: L.append(f'{t["name"]}(int, double);\n  {t["name"]}();') or self.impl.append(f'{q}::{t["name"]}(int, double) {{}}\n{q}::{t["name"]}() {{}}')

    def add_fn(self, i):
        ret, ps = self.sig(i)
        ns, n = self.r.choice(NS), f'fn{self.uid()}'
        self.h[i]['items'].append((ns, f'{ret[0]} {n}({", ".join(ps)});'))
        self.impl.append(f'{ret[0]} {"::".join(ns + [n])}({", ".join(ps)}) {{ return {ret[1]}; }}')
        self.fns.append((ns, n))

    def decl(self, t):
        k = {'class': 'class', 'poly': 'struct', 'enum': 'enum', 'enumclass': 'enum class', 'tmpl': 'template <typename A> struct', 'tmplv': f'template <{t["en"]["q"] if "en" in t else ""} V> struct', 'tmplt': 'template <template <typename> class F> struct'}[t['kind']]
        return f'{k} {t["name"]}' + (' : int' if 'enum' in t['kind'] else '') + ';'

    def define(self, t):
        if 'enum' in t['kind']: return self.decl(t)[:-1] + f' {{ c{t["k"]}_0, c{t["k"]}_1 = 7 }};'
        s = (self.decl(t)[:-1].replace('class ', 'struct ') if t['kind'] == 'class' else self.decl(t)[:-1]) + (' : ' + ', '.join('public ' + b['q'] for b in t['bases']) if t['bases'] else '') + ' {\n  ' + '\n  '.join(t['lines']) + '\n};'
        if t['alias'] and 'tmpl' not in t['kind']: s += f' typedef {t["name"]} {t["alias"]};'
        return s

    @staticmethod
    def wrap(ns, s): return ' '.join(f'namespace {x} {{' for x in ns) + ' ' + s + ' }' * len(ns)

    def files(self):
        fs = {}
        for i, h in enumerate(self.h):
            s = '#pragma once\n' + ''.join(f'#include <{x}>\n' for x in sorted({'memory', 'functional'} | h['std'])) + ''.join(f'#include <{self.h[j]["name"]}>\n' for j in sorted(h['inc']))
            mine = [t for t in self.types if t['h'] == i]
            for t in self.types:
                if t['k'] in h['fwd'] or (t in mine): s += self.wrap(t['ns'], self.decl(t).replace('class T', 'struct T') if t['kind'] == 'class' else self.decl(t)) + '\n'
            for t in mine: s += self.wrap(t['ns'], self.define(t)) + '\n'
            for ns, l in h['items']: s += self.wrap(ns, l) + '\n'
            fs[h['name']] = s
        order = list(self.h)
        self.r.shuffle(order)
        fs['zz_inst.hpp'] = '#pragma once\n' + ''.join(f'#include <{h["name"]}>\n' for h in self.h) + 'inline int all_sizes() { return 0' + ''.join(f' + sizeof({x})' for x in sorted(self.inst)) + '; }\n'
        fs['main.hpp'] = ''.join(f'#include <{h["name"]}>\n' for h in order) + '#include <zz_inst.hpp>\n'
        fs['impl.cpp'] = '#include <main.hpp>\n' + '\n'.join(self.impl) + '\n'
        return fs


def syntax_ok(ctx, files):
    """the workload itself has to be valid C++, header by header (each header after the ones main.hpp puts before it)"""
    from ..core import sh, CXX, CFLAGS
    ctx.src(files)
    rc, _, e = sh([CXX] + CFLAGS + ['-I' + str(ctx.wd / 'src'), '-fsyntax-only', str(ctx.wd / 'src' / 'impl.cpp')], 120)
    if rc != 0: raise Exception('workload is not valid: ' + e[:3000])


ARGS = [(), ('--max-file-size', '1'), ('--max-file-size', '1'), ('--flat',), ('--max-file-size', '3000'), ('--single-file',), ('--flat', '--max-file-size', '1'), ('--max-file-size', '1', '--annotate-includes'), ('--trace',)]


def graph(seed):
    def run(ctx):
        r = random.Random(f'graph-{seed}')
        g = Graph(r, r.randint(2, 6))
        fs = g.files()
        syntax_ok(ctx, fs)
        args = r.choice(ARGS)
        ctx.sample = {'case': ctx.name, 'args': list(args), 'files': {k: v[:1500] for k, v in list(fs.items())[:3]}}
        rc, o, e = ctx.binder(args=args, bind=[''], config='+python_builtin std::vector\n+include <pybind11/stl.h>\n' if g.stl else None)
        if not ctx.ok(rc == 0, 'binder exit', lambda: f'{rc} {o[-500:]} {e[-1500:]}'): return
        files = ['mod.cpp'] if '--single-file' in args else None
        bad = ctx.compile(pch=False, extra_src=['impl.cpp'], files=files)
        for f in (files or ctx.sources()): ctx.ok(f not in [b[0] for b in bad], 'compiles: ' + f, lambda: next(b[1] for b in bad if b[0] == f))
        if not ctx.ok(not bad, 'link', lambda: str(bad)[:2000]): return
        d = DPRE
        for ns, n in g.fns: d += f"t({'function ' + n!r}, lambda: callable(getattr(ns({'::'.join(ns)!r}), {n!r})), ret=True)\n"
        for t in g.types:
            if 'tmpl' in t['kind']: continue
            d += f"t({'type ' + t['name']!r}, lambda: isinstance(getattr(ns({'::'.join(t['ns'])!r}), {t['name']!r}), type), ret=True)\n"
            for m in t.get('m', []): d += f"t({'method ' + t['name'] + '.' + m!r}, lambda: callable(getattr(getattr(ns({'::'.join(t['ns'])!r}), {t['name']!r}), {m!r})), ret=True)\n"
        ctx.drive(d)
        ctx.stat('projects')
    return f'graph-{seed}', run


def alone(name, src, drv='', args=(), config=None, bind=('',), std='c++14', impl=None, clang=()):
    """a hand-written project, every file compiled separately without precompiled headers"""
    def run(ctx):
        fs = dict(src) if isinstance(src, dict) else {'a.hpp': src}
        fs = {k: v if k == 'main.hpp' or k.endswith('.cpp') or v.startswith('#pragma once') else '#pragma once\n' + v for k, v in fs.items()}
        if 'main.hpp' not in fs: fs['main.hpp'] = ''.join(f'#include <{n}>\n' for n in fs if not n.endswith('.cpp'))
        if impl: fs['impl.cpp'] = '#include <main.hpp>\n' + impl
        ctx.src(fs)
        ctx.sample = {'case': ctx.name, 'args': list(args), 'files': {k: v[:1500] for k, v in list(fs.items())[:3]}}
        rc, o, e = ctx.binder(args=args, bind=list(bind) if bind else None, config=config, std=std, clang=clang)
        if not ctx.ok(rc == 0, 'binder exit', lambda: f'{rc} {o[-500:]} {e[-1500:]}'): return
        files = ['mod.cpp'] if '--single-file' in args else None
        bad = ctx.compile(pch=False, extra_src=['impl.cpp'] if impl else (), files=files, cflags=['-std=' + std])
        for f in (files or ctx.sources()): ctx.ok(f not in [b[0] for b in bad], 'compiles: ' + f, lambda: next(b[1] for b in bad if b[0] == f))
        if not ctx.ok(not bad, 'link', lambda: str(bad)[:2000]): return
        ctx.drive(DPRE + drv)
    return name, run


def world(seed):
    """random project of the common generator, one translation unit per file"""
    def run(ctx):
        r = random.Random(f'c01-{seed}')
        w = World(r, ns=r.randint(1, 4), headers=r.randint(2, 5), classes=r.randint(2, 4), enums=r.randint(1, 3), functions=r.randint(3, 8), feats=('virtual', 'hidden', 'nested', 'doc'))
        args = [a for a in ARGS[r.randrange(len(ARGS))] if a != '--single-file']
        ctx.project(w.files(), PRELUDE + w.driver(), bind=[''], pch=False, unity=False, args=args)
    return f'world-{seed}', run


def chain(seed):
    """a line of derived classes, one header each, whose virtual functions name types that are only declared there; the definitions are in other headers"""
    def run(ctx):
        r = random.Random(f'chain-{seed}')
        ns = r.choice(NS)
        Q = '::' + '::'.join(ns + [''])[:-2] + '::' if ns else '::'
        kinds = ['struct', 'struct', 'enum class', 'enum', 'tmpl', 'tmpl2'] + r.choices(['struct', 'enum class', 'enum', 'tmpl', 'tmpl2'], k=2)
        T = [(k, f'K{i}') for i, k in enumerate(kinds)]
        dec = {'struct': 'struct {};', 'enum class': 'enum class {} : int;', 'enum': 'enum {} : int;', 'tmpl': 'template <typename A> struct {};', 'tmpl2': 'template <typename A, typename B> struct {};'}
        body = {'struct': '{ int v = 1; }', 'enum class': '{ a, b }', 'enum': '{ a%s, b%s }', 'tmpl': '{ int v = 1; int get(A const &) const { return v; } }', 'tmpl2': '{ int v = 1; B const *get(A const &) const { return nullptr; } }'}
        fwd = Graph.wrap(ns, ' '.join(dec[k].format(n) for k, n in T)) + '\n'
        inst = set()

        def plain():
            k, n = r.choice([t for t in T if t[0] in ('struct', 'enum class', 'enum')])
            return Q + n

        def ty(ret):
            k, n = r.choice(T)
            q = Q + n
            if k == 'tmpl': q += f'<{r.choice(["int", plain()])}>'
            if k == 'tmpl2': q += f'<{r.choice(["int", plain()])}, {r.choice(["double", plain()])}>'
            if 'tmpl' in k: inst.add(q)
            if 'enum' in k: return r.choice([q, q, f'{q} const']), f'{q}()'
            return r.choice([(q, f'{q}()'), (f'{q} *', 'nullptr'), (f'{q} const &', f'*new {q}()'), (f'{q} &', f'*new {q}()'), (f'std::shared_ptr<{q}>', 'nullptr')] + ([] if ret else [(f'std::shared_ptr<{q}> const &', ''), (f'std::function<void({q} const &)>', '')]))
        fs, impl, names, prev, depth = {}, [], [], None, r.randint(3, 6)
        for d in range(depth):
            me, L = f'C{d}', []
            kind = r.choice(['class'] * 3 + ['tmpl', 'tt', 'tv'])
            if d == depth - 1: kind = 'class'
            tgt = me
            for j in range(r.randint(1, 3)):
                (rt, e), ps, c = ty(True), [ty(False)[0] for _ in range(r.randint(0, 2))], r.choice(['', ' const'])
                m = f'v{d}_{j}'
                if kind == 'class':
                    L.append(f'virtual {rt} {m}({", ".join(ps)}){c};')
                    impl.append(f'{rt} {Q[2:]}{me}::{m}({", ".join(ps)}){c} {{ return {e}; }}')
                    names.append(m)
            tm = [n for k, n in T if k == 'tmpl']
            if kind == 'class' and d == 0: L.append(f'virtual ~{me}() {{}}')
            b = (f' : public {prev}' if prev else '')
            if kind == 'class': h = f'struct {me}{b} {{ {" ".join(L)} }};'
            elif kind == 'tmpl':
                h = f'template <typename T, typename U> struct {me}{b} {{ virtual ~{me}() {{}} virtual T *v{d}_t(U &, T const *) const {{ return nullptr; }} virtual T const *v{d}_u(U *) {{ return nullptr; }} }};'
                tgt = f'{me}<{r.choice([Q + n for k, n in T if k == "struct"])}, {plain()}>'
                names += [f'v{d}_t', f'v{d}_u']
            elif kind == 'tt':
                a = plain()
                h = f'template <template <typename> class F> struct {me}{b} {{ virtual ~{me}() {{}} virtual F<{a}> *v{d}_t(F<int> const &) const {{ return nullptr; }} }};'
                x = r.choice(tm)
                inst.update([f'{Q}{x}<{a}>', f'{Q}{x}<int>'])
                tgt = f'{me}<{Q}{x}>'
                names.append(f'v{d}_t')
            else:
                e = r.choice([n for k, n in T if 'enum' in k])
                h = f'template <{Q}{e} V> struct {me}{b} {{ virtual ~{me}() {{}} virtual {Q}{e} v{d}_e({Q}{e}) const {{ return V; }} }};'
                tgt = f'{me}<{Q}{e}(1)>'
                names.append(f'v{d}_e')
            fs[f'{r.choice(["", "sub/", "z/"])}c{d}.hpp'] = '#pragma once\n#include <memory>\n#include <functional>\n' + (f'#include <{last}>\n' if d else '') + fwd + Graph.wrap(ns, h) + '\n'
            last = list(fs)[-1]
            prev = Q + tgt if kind != 'class' else tgt
            if kind != 'class': inst.add(prev)
        leaf = Q + f'C{depth - 1}'
        fs['user.hpp'] = f'#pragma once\n#include <memory>\n' + Graph.wrap(ns, f'struct C{depth - 1}; struct User {{ std::shared_ptr<C{depth - 1}> p; C{depth - 1} *get() const {{ return p.get(); }} virtual ~User() {{}} virtual C{depth - 1} &ref(C{depth - 1} const &) const; }}; int use(C{depth - 1} &);') + '\n'
        impl += [f'{leaf} &{Q[2:]}User::ref({leaf} const &) const {{ static {leaf} x; return x; }}', f'int {Q[2:]}use({leaf} &) {{ return 5; }}']
        order = list(fs)
        for k, n in T:
            f = f'{r.choice(["", "def/", "a/"])}{n}.h'
            fs[f] = '#pragma once\n' + Graph.wrap(ns, dec[k].format(n)[:-1] + ' ' + body[k].replace('%s', n) + ';') + '\n'
            order.append(f)
        r.shuffle(order)
        fs['zz_inst.hpp'] = '#pragma once\n' + ''.join(f'#include <{h}>\n' for h in fs) + 'inline int all_sizes() { return 0' + ''.join(f' + sizeof({x})' for x in sorted(inst)) + '; }\n'
        fs['main.hpp'] = ''.join(f'#include <{h}>\n' for h in order) + '#include <zz_inst.hpp>\n'
        fs['impl.cpp'] = '#include <main.hpp>\n' + '\n'.join(impl) + '\n'
        syntax_ok(ctx, fs)
        args = r.choice([('--max-file-size', '1'), ('--max-file-size', '1'), ('--max-file-size', '1', '--flat'), ()])
        ctx.sample = {'case': ctx.name, 'args': list(args), 'files': {k: v[:1500] for k, v in list(fs.items())[:3]}}
        rc, o, e = ctx.binder(args=args, bind=[''])
        if not ctx.ok(rc == 0, 'binder exit', lambda: f'{rc} {o[-500:]} {e[-1500:]}'): return
        bad = ctx.compile(pch=False, extra_src=['impl.cpp'])
        for f in ctx.sources(): ctx.ok(f not in [b[0] for b in bad], 'compiles: ' + f, lambda: next(b[1] for b in bad if b[0] == f))
        if not ctx.ok(not bad, 'link', lambda: str(bad)[:2000]): return
        w = f"ns({'::'.join(ns)!r})"
        d = DPRE + f"class Sub({w}.C{depth - 1}): pass\nt('use', lambda: [{w}.use({w}.C{depth - 1}()), {w}.use(Sub())], ret=[5, 5])\n"
        for m in names: d += f"t({'method ' + m!r}, lambda: callable(getattr({w}.C{depth - 1}, {m!r})), ret=True)\n"
        ctx.drive(d)
        ctx.stat('chains')
    return f'chain-{seed}', run


CASES = []


def case(*a, **kw): CASES.append(alone(*a, **kw))

case('fwd-typedef-pointer', {'a.hpp': 'struct T; typedef T *TP; typedef T const *CTP; typedef T &TR; using TA = T; TP f1(TP); CTP f2(CTP); TR f3(TR); TA &f4(TA const &);', 'b.hpp': 'struct T { int v = 3; };'},
     "t('f1', lambda: M.f1(M.T()).v, ret=3)\nt('f4', lambda: M.f4(M.T()).v, ret=3)\n", impl='T T_; TP f1(TP) { return new T(); } CTP f2(CTP) { return &T_; } TR f3(TR) { return T_; } TA &f4(TA const &) { return T_; }', args=('--max-file-size', '1'))
case('fwd-virtual', {'a.hpp': '#include <memory>\nstruct R; struct A; enum class E : int; struct B { virtual ~B() {} virtual R *r(A &) { return nullptr; } virtual R &rr(A const *) const; virtual std::shared_ptr<R> sp(std::shared_ptr<A> const &, E) { return nullptr; } virtual void pure(R const &, E) = 0; };',
                     'b.hpp': '#include <a.hpp>\nstruct D : B { void pure(R const &, E) override {} };', 'c.hpp': 'struct R { int v = 4; }; struct A { int v = 5; }; enum class E : int { e0, e1 };'},
     "class P(M.D):\n    def sp(self, a, e): return M.R()\nt('sp', lambda: P().sp(M.A(), M.E.e1).v, ret=4)\n", impl='R r_; R &B::rr(A const *) const { return r_; }', args=('--max-file-size', '1'))
case('fwd-base-args', {'a.hpp': '#include <memory>\nstruct X; template <typename T> struct Base { std::shared_ptr<T> p; T *raw() { return p.get(); } virtual ~Base() {} virtual T *v(T const &) { return nullptr; } };', 'b.hpp': '#include <a.hpp>\nstruct Dv : Base<X> { int d = 1; }; struct Hold { std::shared_ptr<X> p; std::weak_ptr<X> w; X *q = nullptr; std::shared_ptr<Base<X>> b; };', 'x.hpp': 'struct X { int v = 9; };'},
     "t('f', lambda: setall(M.Hold(), p=M.X()).p.v, ret=9)\nt('g', lambda: setall(M.Dv(), p=M.X()).p.v, ret=9)\n", args=('--max-file-size', '1'))
case('umbrella', {'lib/lib.hpp': '#include <lib/detail/x.hpp>\n#include <lib/detail/y.hpp>\n', 'lib/detail/x.hpp': '#ifndef LIB_ONLY\n#define LIB_ONLY 1\n#endif\nnamespace lib { struct X { int v = 1; }; }', 'lib/detail/y.hpp': '#include <lib/detail/x.hpp>\nnamespace lib { struct Y { X x; X &get() { return x; } }; inline int fy(X const &, Y *) { return 2; } }', 'main.hpp': '#include <lib/lib.hpp>\n'},
     "t('f', lambda: M.lib.fy(M.lib.X(), M.lib.Y()), ret=2)\n", args=('--max-file-size', '1'))
case('std-types', '#include <iosfwd>\n#include <cstdint>\n#include <utility>\n#include <exception>\n#include <initializer_list>\n#include <array>\nnamespace s { inline int f1(std::uint8_t a, std::int64_t b, std::size_t c, std::ptrdiff_t d) { return a + b + c + d; } inline std::pair<int, double> f2(std::pair<int, int> const &p) { return {p.first, p.second}; } inline std::nullptr_t f4(std::nullptr_t) { return nullptr; } inline long double f5(long double x, wchar_t, char16_t, char32_t) { return x; } inline std::exception *f6() { return nullptr; } struct St { std::pair<int, int> p; std::uint16_t u = 3; }; inline void f7(std::ostream &) {} inline char const *f8(char const *s) { return s; } inline void *f9(void *p) { return p; } inline int f10(int const *p) { return p ? *p : 0; } }',
     "t('f1', lambda: M.s.f1(1, 2, 3, 4), ret=10)\nt('u', lambda: M.s.St().u, ret=3)\nt('f5', lambda: M.s.f5(2.5, 'a', 'b', 'c'), ret=2.5)\n")
case('odd-declarations', """
#include <cstdarg>
namespace o {
struct U { union { int i; float f; }; struct { int x; } anon; int arr[3]; int (*fp)(int); int bits : 3; int U::*mp; volatile int vi = 0; mutable int mi = 0; static const int sc = 5; static int sd; static constexpr int sce = 6; int *ip; int &&get() { return static_cast<int &&>(mi); } int vfn(int n, ...) { return n; } U &operator=(U const &) = default; int const ci = 3; U() : arr{1, 2, 3} {} };
[[deprecated]] inline int dep() { return 1; }
inline int af(int a[3], int b[], int (&c)[2]) { return 1; }
inline auto tr(int x) -> decltype(x) { return x; }
inline auto au(int x) { return x + 1; }
constexpr int ce(int x) { return x; }
template <typename T> T tf(T x) { return x; }
inline int use() { return tf<int>(3) + tf<double>(2.0); }
template <> inline char tf<char>(char c) { return c; }
inline int ne(int x) noexcept { return x; }
inline int var(int n, ...) { return n; }
inline int fpf(int (*f)(int), int x) { return f ? f(x) : x; }
inline void mpf(int U::*p) {}
typedef int **PP; typedef int *AP[2]; typedef int (*PA)[2]; typedef U *UP; inline int pp(PP) { return 1; } inline int ap(AP) { return 1; } inline int pa(PA) { return 1; } inline int upp(UP *) { return 1; } inline U const *const upc(UP const) { return nullptr; }
inline int volp(volatile int *p) { return 1; }
extern "C" { inline int cfn(int x) { return x + 2; } struct CS { int q; }; }
inline namespace v1 { struct IN { int v = 1; }; inline int inl() { return 4; } }
namespace { struct Hidden { int v; }; inline int hid() { return 1; } }
static int stat(int x) { return x + 5; }
using Int = int; typedef Int Int2; inline Int2 al(Int a) { return a; }
enum { ANON_A, ANON_B = 4 }; enum : unsigned char { ANON_C };
struct Conv { operator int() const { return 1; } explicit operator bool() const { return true; } operator double *() { return nullptr; } int operator()(int a, int b = 2) { return a + b; } int operator[](int i) const { return i; } Conv &operator++() { return *this; } Conv operator++(int) { return *this; } Conv operator-() const { return *this; } bool operator!() const { return false; } Conv *operator->() { return this; } Conv &operator*() { return *this; } Conv *operator&() { return this; } Conv &operator,(int) { return *this; } void *operator new(decltype(sizeof 1) n) { return ::operator new(n); } void operator delete(void *p) { ::operator delete(p); } };
struct Fwd; struct Fwd; inline Fwd *fwd(Fwd *p) { return p; }
}
int o::U::*dummy(int);
""".replace('int o::U::*dummy(int);\n', ''),
     "t('cfn', lambda: M.o.cfn(1), ret=3)\nt('al', lambda: M.o.al(6), ret=6)\nt('call', lambda: M.o.Conv()(1, 4), ret=5)\n", impl='int o::U::sd = 1;')
case('names', """
namespace pybind11_ { struct py { int v = 1; }; }
namespace k { struct lambda { int v = 1; }; struct None { int v = 2; }; inline int print(int x) { return x; } inline int def() { return 1; } inline int from(int lambda, int def = 2, int is = 3) { return lambda + def + is; } enum class pass { from, is, def }; enum global_ { True_, False_ }; namespace import_ { inline int raise_() { return 1; } } struct self { int self_ = 1; int f(int self, int o, int a0) { return o; } int g(int o = 1, int a1 = 2) { return o + a1; } }; inline int h(int m, int M_, int cl, int caster, int type) { return cl; } struct o { int x = 1; o() {} o(int o) : x(o) {} int get(o const &o_, int a0 = 1) const { return o_.x; } }; }
""", "t('h', lambda: M.k.h(1, 2, 3, 4, 5), ret=3)\nt('g', lambda: M.k.self().g(5), ret=7)\nt('o', lambda: M.k.o(4).get(M.k.o(5)), ret=5)\n")
case('trampoline-names', {'a.hpp': """
namespace a { struct b_C { virtual ~b_C() {} virtual int f() { return 1; } }; }
namespace a_b { struct C { virtual ~C() {} virtual int f() { return 2; } }; }
namespace a { namespace b { struct C { virtual ~C() {} virtual int f() { return 3; } }; } }
""", 'b.hpp': """
template <int I> struct V { virtual ~V() {} virtual int f() { return I; } }; template <char I> struct W { virtual ~W() {} virtual int f() { return I; } }; template <typename T> struct X { virtual ~X() {} virtual int f() { return sizeof(T); } };
inline void f1(V<-1>, V<1>, W<'a'>, W<'+'>, W<'-'>, X<int *>, X<int &>, X<const int>, X<int[3]>) {}
""", 'c.hpp': '#include <a.hpp>\n#include <b.hpp>\ninline int ca(a::b_C &x) { return x.f(); } inline int cb(a_b::C &x) { return x.f(); } inline int cc(a::b::C &x) { return x.f(); }'}, """
class P1(M.a.b_C): pass
class P2(M.a_b.C): pass
class P3(M.a.b.C): pass
class Q(M.a.b.C):
    def f(self): return 30
t('each own', lambda: [M.ca(P1()), M.cb(P2()), M.cc(P3()), M.cc(Q())], ret=[1, 2, 3, 30])
""")
case('trampoline-names-one-file', 'namespace a { struct b_C { virtual ~b_C() {} virtual int f() { return 1; } }; }\nnamespace a_b { struct C { virtual ~C() {} virtual int f() { return 2; } }; }\n', "t('both', lambda: [M.a.b_C().f(), M.a_b.C().f()], ret=[1, 2])\n", args=('--single-file',))
case('macros', '#define DECL(n) struct n { int v = 1; int get_##n() const { return v; } }; inline int fn_##n(n const &) { return 2; }\nnamespace mc { DECL(A1) DECL(B1) }\n#define NSB namespace mq {\n#define NSE }\nNSB\nDECL(C1)\nNSE\n', "t('f', lambda: [M.mc.fn_A1(M.mc.A1()), M.mq.C1().get_C1()], ret=[2, 1])\n", args=('--max-file-size', '1'))
case('cxx17', '#include <optional>\n#include <string_view>\n#include <variant>\nnamespace x::y::z { inline int nn() { return 1; } struct [[nodiscard]] N { inline static int si = 2; static constexpr int sc = 3; }; inline constexpr int kc = 4; template <auto V> struct Au { int v = V; }; inline int au(Au<3> a) { return a.v; } enum class [[maybe_unused]] E { a [[deprecated]], b }; struct Agg { int a; int b = 2; }; inline int sv(int x = [] { return 7; }()) { return x; } }\n', "t('nn', lambda: [M.x.y.z.nn(), M.x.y.z.sv()], ret=[1, 7])\n", std='c++17')
case('cxx11', 'namespace e { enum class S : long long { big = 1LL << 40 }; struct A { A(std::initializer_list<int>) {} A() {} int v{3}; }; template <typename... T> struct Var { int n = sizeof...(T); }; inline int va(Var<int, double, Var<>> v) { return v.n; } template <template <typename> class C> struct TT { int k = 1; }; template <typename T> struct One {}; inline int tt(TT<One> t) { return t.k; } }\n'.replace('namespace e', '#include <initializer_list>\nnamespace e'), "t('va', lambda: None)\n", std='c++11')
case('raw-vector', '#include <vector>\n#include <map>\n#include <set>\nnamespace rv { struct T { int v = 1; bool operator<(T const &o) const { return v < o.v; } bool operator==(T const &o) const { return v == o.v; } }; inline std::vector<T> mk() { return std::vector<T>(3); } inline int size(std::vector<int> v) { return v.size(); } inline std::vector<double> d(std::vector<double> v) { return v; } }\n', "t('mk', lambda: M.rv.mk().size(), ret=3)\n")
case('stl-binders', '#include <vector>\n#include <map>\n#include <string>\nnamespace rv { struct T { int v = 1; bool operator<(T const &o) const { return v < o.v; } bool operator==(T const &o) const { return v == o.v; } }; inline std::vector<T> mk() { return std::vector<T>(3); } inline std::map<std::string, T> mp() { return {{"a", T()}}; } }\n', "t('mk', lambda: [len(M.rv.mk()), M.rv.mp()['a'].v], ret=[3, 1])\n",
     config='+include_for_namespace rv <stl_binders.hpp>\n+binder std::vector binder::vector_binder\n+binder std::map binder::map_binder\n+include_for_class std::vector <stl_binders.hpp>\n+include_for_class std::map <stl_binders.hpp>\n')
case('smart-pointers', {'a.hpp': '#include <memory>\nstruct N { std::shared_ptr<N> next; std::weak_ptr<N> prev; int v = 1; }; struct O { std::shared_ptr<N const> c() const { return std::make_shared<N>(); } }; template <typename T> struct Ptr { T *p = nullptr; T *get() const { return p; } }; inline Ptr<N> pn(Ptr<N> p) { return p; }'},
     "t('n', lambda: setall(M.N(), next=M.N()).next.v, ret=1)\nt('c', lambda: M.O().c().v, ret=1)\n")
case('enable-shared', '#include <memory>\nstruct ES : std::enable_shared_from_this<ES> { int v = 2; std::shared_ptr<ES> me() { return shared_from_this(); } virtual ~ES() {} virtual int f(std::shared_ptr<ES> const &p) { return p->v; } }; struct ED : ES { int f(std::shared_ptr<ES> const &) override { return 7; } };', "t('me', lambda: (lambda e: e.me() is e)(M.ES()), ret=True)\nt('f', lambda: M.ED().f(M.ES()), ret=7)\n")
case('enum-value-argument', {'t.hpp': 'namespace n { enum class E : int; template <E v> struct X { int get() const { return int(v); } }; }', 'e.hpp': 'namespace n { enum class E : int { a, b }; }', 'a.hpp': '#include <t.hpp>\n#include <e.hpp>\nnamespace n { struct Y : X<E::b> {}; }'},
     "t('get', lambda: M.n.Y().get(), ret=1)\n", args=('--max-file-size', '1'))
case('template-argument-deep', {'tt.hpp': 'namespace n { template <template <typename> class F> struct TT { int get() const { return sizeof(f); } private: F<int> f; }; template <typename T> struct TY { int get() const { return t.v; } private: T t; }; }',
                                'x.hpp': 'namespace n { template <typename T> struct X { T v = 3; }; struct Y { int v = 4; }; }',
                                'h.hpp': '#include <tt.hpp>\nnamespace n { template <typename T> struct X; struct Y; struct H { int use(TT<X> const &) const; TT<X> *make() const; static int st(TT<X> &); virtual ~H() {} virtual int v(TT<X> const *) const; int usey(TY<Y> const &) const; TY<Y> *makey() const; }; int fn(TT<X> const *, TY<Y> const *); struct H2 { struct In { int use(TT<X> const &) const; TY<Y> *makey() const; }; }; }',
                                'zz.hpp': '#include <x.hpp>\n#include <h.hpp>\nnamespace n { inline int all() { return sizeof(TT<X>) + sizeof(TY<Y>); } }\n', 'main.hpp': '#include <tt.hpp>\n#include <h.hpp>\n#include <x.hpp>\n#include <zz.hpp>\n'},
     "t('use', lambda: [M.n.H().use(M.n.H().make()), M.n.H.st(M.n.H().make()), M.n.H().v(M.n.H().make()), M.n.fn(M.n.H().make(), M.n.H().makey()), M.n.H2.In().use(M.n.H().make()), M.n.H2.In().makey().get()], ret=[4, 4, 4, 8, 4, 4])\n",
     impl='namespace n { int H::use(TT<X> const &t) const { return t.get(); } TT<X> *H::make() const { return new TT<X>(); } int H::st(TT<X> &t) { return t.get(); } int H::v(TT<X> const *t) const { return t->get(); } int H::usey(TY<Y> const &y) const { return y.get(); } TY<Y> *H::makey() const { return new TY<Y>(); } int fn(TT<X> const *a, TY<Y> const *b) { return a->get() + b->get(); } int H2::In::use(TT<X> const &t) const { return t.get(); } TY<Y> *H2::In::makey() const { return new TY<Y>(); } }', args=('--max-file-size', '1'))
case('member-templates', {'h.hpp': 'namespace n { struct H { template <typename T> static int st(T const &t) { return t.v; } template <typename T> int m(T const &t) const { return t.v; } template <typename T> static T mk() { return T(); } template <typename T> T rt(int k) { return T{k}; } template <typename T> static int en(T t) { return int(t); } template <typename T, typename U> static int two(T const &t, U *u) { return t.v + u->v; } }; struct H2 { template <typename T> static int st(T const *t) { return t->v; } }; }',
                          'x1.hpp': 'namespace n { struct X1 { int v = 1; }; }', 'x2.hpp': 'namespace n { struct X2 { int v = 2; }; }', 'x3.hpp': 'namespace n { struct X3 { int v = 3; }; }', 'x4.hpp': 'namespace n { struct X4 { int v; }; }', 'x5.hpp': 'namespace n { enum class X5 { a, b = 5 }; }', 'x6.hpp': 'namespace n { struct X6 { int v = 6; }; }', 'x7.hpp': 'namespace n { struct X7 { int v = 7; }; }', 'x8.hpp': 'namespace n { struct X8 { int v = 8; }; }',
                          'zz.hpp': '#include <h.hpp>\n' + ''.join(f'#include <x{k}.hpp>\n' for k in range(1, 9)) + 'namespace n { inline int all() { X7 x; X8 y; return H::st(X1()) + H().m(X2()) + H::mk<X3>().v + H().rt<X4>(4).v + H::en(X5::b) + H::two(X6(), &x) + H2::st(&y); } }'},
     "t('use', lambda: [M.n.H.st(M.n.X1()), M.n.H().m(M.n.X2()), M.n.H.mk().v, M.n.H().rt(4).v, M.n.H.en(M.n.X5.b), M.n.H.two(M.n.X6(), M.n.X7()), M.n.H2.st(M.n.X8()), M.n.all()], ret=[1, 2, 3, 4, 5, 13, 8, 36])\n", args=('--max-file-size', '1'))
case('pack-argument', {'t.hpp': 'namespace n { template <typename A, typename... T> struct Tail { T *none() { return nullptr; } }; template <typename... T> struct Pk; template <> struct Pk<> { int get() const { return 0; } }; template <typename F, typename... T> struct Pk<F, T...> { int get() const { return f.v + rest.get(); } private: F f; Pk<T...> rest; }; template <template <typename> class... F> struct PT { int get() const { return 1 + sizeof...(F); } }; }'.replace('template <typename A, typename... T> struct Tail { T *none() { return nullptr; } }; ', ''),
                       'x.hpp': 'namespace n { struct X { int v = 3; }; }', 'y.hpp': 'namespace n { struct Y { int v = 4; }; template <typename T> struct TX { T v; }; }', 'e.hpp': 'namespace n { enum class E : int { a, b = 5 }; }',
                       'h.hpp': '#include <t.hpp>\nnamespace n { enum class E : int; struct X; struct Y; template <typename T> struct TX; struct H { int use(Pk<X, Y> const &) const; Pk<Y> *make() const; }; int fn(Pk<X> const *); template <typename... T> int count(T const &...) { return sizeof...(T); } int pt(PT<TX, TX> const &); }',
                       'zz.hpp': '#include <h.hpp>\n#include <x.hpp>\n#include <y.hpp>\nnamespace n { inline int all() { return sizeof(Pk<X, Y>) + sizeof(Pk<Y>) + sizeof(Pk<X>) + sizeof(PT<TX, TX>) + count(X(), Y()); } }'},
     "t('use', lambda: [M.n.H().use(M.n.Pk_n_X_n_Y_t()), M.n.H().make().get(), M.n.fn(M.n.Pk_n_X_t())], ret=[7, 4, 3])\n",
     impl='namespace n { int H::use(Pk<X, Y> const &p) const { return p.get(); } Pk<Y> *H::make() const { return new Pk<Y>(); } int fn(Pk<X> const *p) { return p->get(); } int pt(PT<TX, TX> const &p) { return p.get(); } }', args=('--max-file-size', '1'))
case('pure-commas', '#include <utility>\nnamespace n { template <typename A, typename B> struct X { int v = 2; }; struct P { virtual ~P() {} virtual std::pair<int, int> a() = 0; virtual X<int, double> b(X<int, int> const &) = 0; virtual X<int, int> const &c() const = 0; virtual X<X<int, int>, int> *d(X<int, int> &, std::pair<int, int>) = 0; virtual X<int, double> e() { return {}; } }; struct Q : P { std::pair<int, int> a() override { return {1, 2}; } virtual X<int, int> f() = 0; }; inline int run(P &p) { X<int, int> x; return p.a().second + p.b(x).v * 10 + p.c().v * 100 + p.d(x, {1, 1})->v * 1000 + p.e().v * 10000; } inline X<X<int, int>, int> *mk() { return new X<X<int, int>, int>(); } inline int all() { return sizeof(X<int, double>); } }',
     """class A(M.n.P):
    def a(self): return (3, 4)
    def b(self, x): return M.n.X_int_double_t()
    def c(self):
        self.x = M.n.X_int_int_t()
        return self.x
    def d(self, x, y):
        self.y = M.n.mk()
        return self.y
t('run', lambda: M.n.run(A()), ret=22224)
t('q', lambda: M.n.Q().a(), ret=(1, 2))
""")
case('diamond', 'struct A { virtual ~A() {} virtual int f() { return 1; } int a = 1; }; struct B : virtual A { int b = 2; }; struct C : virtual A { int f() override { return 3; } }; struct D : B, C { int d = 4; }; template <typename T> struct Mix : T { using T::T; int mix() { return 5; } }; struct UM : Mix<A> { }; struct Crtp; template <typename T> struct CB { int val() { return 6; } T *self() { return static_cast<T *>(this); } }; struct Crtp : CB<Crtp> {};', "t('f', lambda: [M.D().f(), M.UM().mix(), M.Crtp().val()], ret=[3, 5, 6])\n")
case('many', ''.join(f'namespace big {{ struct S{i} {{ int v = {i}; int get() const {{ return v; }} }}; inline int f{i}(S{i} const &s) {{ return s.v; }} }}\n' for i in range(60)), "t('all', lambda: [getattr(M.big, f'f{i}')(getattr(M.big, f'S{i}')()) for i in range(60)], ret=list(range(60)))\n", args=('--max-file-size', '12000'))
case('empty', 'namespace nothing { int declared_only(int); }\n', "t('is empty', lambda: 1)\n", impl='namespace nothing { int declared_only(int x) { return x; } }\n')
case('nothing-requested', 'namespace q { struct A {}; }\n', "t('names', lambda: [n for n in dir(M) if not n.startswith('_')], ret=[])\n", bind=['other'])
case('root-names', 'struct G { int v = 1; }; namespace mod { struct G { int v = 2; }; namespace mod { inline int f() { return 3; } } } namespace std_ { struct vector {}; }', "t('v', lambda: [M.G().v, M.mod.G().v, M.mod.mod.f()], ret=[1, 2, 3])\n", args=('--max-file-size', '1'))


def cases(check, rng, tier):
    return CASES + [graph(s) for s in seeds(rng, nworlds(tier, 8, 150))] + [world(s) for s in seeds(rng, nworlds(tier, 1, 40))] + [chain(s) for s in seeds(rng, nworlds(tier, 5, 120))]


CHECK = Check('C01', 'exploration', 'compile, link and import monitor: every generated file as its own translation unit without precompiled headers',
              'one observation per generated file that was compiled alone, per link, import and name looked up; non-trivial = distinct (case, file or name)', cases,
              assumptions=['clang 14, pybind11 2.x and CPython 3.12 decide what compiles and imports', 'workload projects are valid C++ within the constructs the documentation describes'])
