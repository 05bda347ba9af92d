"""C03: the directives decide exactly what is bound: every random project is bound under random directives and the imported surface is
compared with a reference procedure written from the documentation."""
import random
from .. import snap
from ..core import Check
from ..scen import scen, seeds, nworlds, PRE, DPRE

NSPOOL = ['a', 'ab', 'a::b', 'a::bc', 'a::b::c', 'b', 'c', 'c::a', 'c::a::b', 'a::b::deeper_still', 'a::b::deeper_still::last', '']
CNAMES, FNAMES, ENAMES = ['X', 'XY', 'X1', 'Y'], ['f', 'ff', 'f1', 'g'], ['E', 'EE', 'E1']
PAR = [('int', 'i', 'int'), ('std::string', 's', 'std::string'), ('double', 'd', 'double'), ('long', 'l', 'long')]


def q(ns, n): return f'{ns}::{n}' if ns else n


class C:
    """a class (or one specialisation of a class template)"""

    def __init__(s, ns, name, spec=None, targ=None, base=None):
        s.ns, s.name, s.spec, s.base, s.std = ns, name, spec, base, False
        s.targ = targ if isinstance(targ, list) or targ is None else [targ]
        s.fields, s.methods, s.enums, s.inner = [], [], [], None
        s.plain = q(ns, name)
        s.full = s.plain + (f'<{spec}>' if spec else '')

    def py(s):
        return s.name + (('_' + s.spec.replace('::', '_').replace(',', '_') + '_t') if s.spec else '')


class F:
    def __init__(s, ns, name, par, owner=None, cls=None, ret=None, templ=None, const=False, static=False):
        s.en, s.default = None, False
        s.ns, s.name, s.par, s.owner, s.cls, s.ret, s.templ, s.const, s.static = ns, name, par, owner, cls, ret, templ, const, static
        s.plain, s.any = (owner.plain + '::' + name) if owner else q(ns, name), None
        t = par[0] if not cls else None
        s.full = (s.plain + (f'<{templ}>' if templ else '') + f'({t})' + (' const' if const else '')) if t is not None else None


class Project:
    def __init__(s, r):
        s.r = r
        s.nss = r.sample(NSPOOL, r.randint(3, 6))
        s.classes, s.functions, s.enums, s.templates = [], [], [], []
        body = {n: '' for n in s.nss}
        order = [n for n in s.nss for _ in range(2)]
        r.shuffle(order)
        for ns in order:
            t = ''
            for _ in range(r.randint(0, 2)):
                nm = r.choice([x for x in CNAMES if all(c.plain != q(ns, x) for c in s.classes)] or [''])
                if nm: t += s.klass(ns, nm)
            for _ in range(r.randint(0, 2)):
                nm = r.choice([x for x in ENAMES if q(ns, x) not in s.enums] or [''])
                if nm:
                    s.enums.append(q(ns, nm))
                    t += f'enum class {nm} {{ p = {r.randint(0, 9)} }};\n'
            for _ in range(r.randint(1, 3)):
                nm = r.choice(FNAMES)
                if any(c.plain == q(ns, nm) for c in s.classes): continue
                p = r.choice(PAR)
                if any(f.ns == ns and f.name == nm and f.par == p and not f.cls and not f.owner for f in s.functions): continue
                s.functions.append(F(ns, nm, p))
                t += f'inline int {nm}({p[0]} {p[1]}) {{ return 1; }}\n'
            if s.classes and r.random() < .6:
                c, nm = r.choice(s.classes), f'u{len(s.functions)}'
                c2 = r.choice(s.classes) if r.random() < .3 else None
                s.functions.append(F(ns, nm, ('', 'c', ''), cls=c, ret=c2))
                form = r.choice(['::{} const &c', '::{} *c', '::{} c', '::{} &c', '::{} const &c = {{}}', '::{} *c = nullptr'])
                s.functions[-1].default = '=' in form
                t += f'inline {"::" + c2.full + " *" if c2 else "int "}{nm}({form.format(c.full)}) {{ return {"nullptr" if c2 else "1"}; }}\n'
            if r.random() < .3 and ('', 'V') and all(x.plain != q(ns, 'V') for x in s.templates):
                t += f'template <typename T> struct V {{ T v; int vm(int i) {{ return i; }} int vn(T t) {{ return 1; }} static int vs(int i) {{ return i; }} int vc(int i) const {{ return i; }} virtual ~V() {{}} virtual int vv(int i) {{ return i; }} }};\n'
                specs = [('int', None)] + ([('double', None)] if r.random() < .5 else []) + ([(c.full, c) for c in [r.choice(s.classes)]] if s.classes and r.random() < .6 else [])
                for sp, targ in specs:
                    v = C(ns, 'V', sp, targ)
                    v.fields = ['v']
                    v.methods = [F(ns, 'vm', PAR[0], owner=v), F(ns, 'vn', (sp, 't', sp), owner=v, cls=targ), F(ns, 'vs', PAR[0], owner=v, static=True), F(ns, 'vc', PAR[0], owner=v, const=True), F(ns, 'vv', PAR[0], owner=v)]
                    for m in v.methods: m.plain, m.any, m.full = f'{v.full}::{m.name}', f'{v.plain}::{m.name}', f'{v.full}::{m.name}({m.par[0]})' + (' const' if m.const else '') if m.name != 'vn' or not targ else None
                    s.templates.append(v)
                    if targ is None and r.random() < .4 or False: t += ''
                    nm = f'uv{len(s.functions)}'
                    s.functions.append(F(ns, nm, ('', 'c', ''), cls=v))
                    t += f'inline int {nm}(V<{"::" if targ else ""}{sp}> const &c) {{ return (int)sizeof(c); }}\n'
            if s.classes and r.random() < .3 and all(x.plain != q(ns, 'Pk') for x in s.templates):
                t += 'template <typename A, typename... T> struct Pk { int km(int i) { return i; } };\n'
                cs = r.sample(s.classes, min(len(s.classes), r.choice([1, 2])))
                sp = ','.join(['int'] + [c.full for c in cs])
                v = C(ns, 'Pk', sp, cs)
                v.methods = [F(ns, 'km', PAR[0], owner=v)]
                for m in v.methods: m.plain, m.any, m.full = f'{v.full}::{m.name}', f'{v.plain}::{m.name}', f'{v.full}::{m.name}({m.par[0]})'
                s.templates.append(v)
                nm = f'uk{len(s.functions)}'
                s.functions.append(F(ns, nm, ('', 'c', ''), cls=v))
                t += f'inline int {nm}(Pk<{",".join(["int"] + ["::" + c.full for c in cs])}> const &c) {{ return (int)sizeof(c); }}\n'
            if s.enums and r.random() < .5:
                e, nm = r.choice(s.enums), f'ue{len(s.functions)}'
                f = F(ns, nm, ('', 'c', ''), cls=None)
                f.en, f.full, f.par = e, None, ('enum', 'c', 'enum')
                s.functions.append(f)
                t += f'inline int {nm}({r.choice(["::{} c", "::{} const &c", "const ::{} c"]).format(e)}) {{ return 1; }}\n'
            if s.classes and r.random() < .4:
                c, nm = r.choice(s.classes), f'us{len(s.functions)}'
                w = C('std', 'shared_ptr', c.full, c)
                w.std = True
                s.functions.append(F(ns, nm, ('', 'c', ''), cls=w))
                t += f'inline int {nm}({r.choice(["std::shared_ptr<::{}> c", "std::shared_ptr<::{}> const &c"]).format(c.full)}) {{ return 1; }}\n'
            if r.random() < .3 and not any(f.ns == ns and f.name == 'tf' for f in s.functions):
                t += 'template <typename T> int tf(T t) { return 1; }\n' + f'inline int call_tf{len(s.functions)}(int k) {{ return tf<int>(k) + tf<double>(k); }}\n'
                s.functions += [F(ns, f'call_tf{len(s.functions)}', ('int', 'k', 'int')), F(ns, 'tf', ('int', 't', 'int'), templ='int'), F(ns, 'tf', ('double', 't', 'double'), templ='double')]
            body[ns] += '' if not t else ''
            s.chunks = getattr(s, 'chunks', []) + [(ns, t)]
        s.header = ''
        for ns, t in s.chunks:
            if t: s.header += ''.join(f'namespace {x} {{ ' for x in ns.split('::') if x) + '\n' + t + '}' * len([x for x in ns.split('::') if x]) + '\n'

    def klass(s, ns, nm):
        r = s.r
        c = C(ns, nm, base=r.choice(s.classes) if s.classes and r.random() < .4 else None)
        t = f'struct {nm}' + (f' : ::{c.base.full}' if c.base else '') + ' {\n'
        for f in r.sample(['p', 'pp', 'p1'], r.randint(0, 2)):
            c.fields.append(f)
            t += f'int {f} = 1;\n'
        for _ in range(r.randint(0, 3)):
            m, p, cv, st = r.choice(['m', 'mm', 'm1']), r.choice(PAR), r.random() < .3, False
            if any(x.name == m and x.par == p for x in c.methods): continue
            if not any(x.name == m for x in c.methods): st = r.random() < .25
            else: st = next(x.static for x in c.methods if x.name == m)
            cv = cv and not st
            c.methods.append(F(ns, m, p, owner=c, const=cv, static=st))
            t += f'{"static " if st else ""}int {m}({p[0]} {p[1]}){" const" if cv else ""} {{ return 1; }}\n'
        if s.classes and r.random() < .4:
            d = r.choice(s.classes)
            c.methods.append(F(ns, 'mc', ('', 'c', ''), owner=c, cls=d))
            t += f'int mc(::{d.full} const &c) {{ return 1; }}\n'
        if r.random() < .3:
            c.enums.append('IE')
            t += 'enum class IE { z };\n'
        if r.random() < .3:
            c.inner = C(ns, nm + '::In')
            t += 'struct In { int w = 1; };\n'
        s.classes.append(c)
        return t + '};\n'

    # --- directives
    def directives(s):
        r, d = s.r, set()
        allns = sorted({'::'.join(n.split('::')[:k]) for n in s.nss for k in range(1, n.count('::') + 2)} - {''})
        pool = [f'+namespace {n}' for n in allns] * 2 + [f'-namespace {n}' for n in allns]
        for c in s.classes: pool += [f'{x}class {c.full}' for x in '+--'] + [f'-field {c.plain}::{f}' for f in c.fields] + [f'-enum {c.plain}::{e}' for e in c.enums] + ([f'-class {c.name}', f'-class {c.plain}::'] if r.random() < .3 else []) + ([f'-class {c.inner.plain}'] if c.inner else [])
        for c in s.templates: pool += [f'{x}class {c.full}' for x in '+-'] + [f'{x}class {c.plain}' for x in '+-'] + [f'-field {c.full}::v'] + [f'-function {m.any}' for m in c.methods if m.any]
        for e in s.enums: pool += [f'{x}enum {e}' for x in '+-']
        for f in s.functions + [m for c in s.classes + s.templates for m in c.methods]:
            pool += [f'{x}function {f.plain}' for x in '+-']
            if f.full: pool += [f'{x}function {f.full}' for x in '+-']
        pool += ['-class XX', '+class a::Z', '-function f(int', '-enum E2', '-namespace aa', '+namespace a::', '-function m', '-field p', '+function nothing(int)'] if False else ['-class XX', '+class a::Z', '-enum E2', '-namespace aa', '-function m(int)', '-field p', '+function nothing(int)']
        d = set(r.sample(pool, min(len(pool), r.randint(3, 14))))
        if r.random() < .6: d.add('+namespace ')
        d |= set(r.sample([f'+namespace {n}' for n in allns], min(len(allns), r.randint(1, 2))))
        b = {x[11:] for x in d if x.startswith('+namespace')}
        d = {x for x in d if not (x.startswith('-namespace') and x[11:] in b)}  # a namespace that is both is an error
        d = sorted(d)
        r.shuffle(d)
        return d


class Ref:
    """which entities the directives select (from documentation/config.rst)"""

    def __init__(s, p, lines):
        s.p = p
        s.d = {(x, k): set() for x in '+-' for k in ('namespace', 'class', 'function', 'enum', 'field')}
        for l in lines: s.d[(l[0], l[1:].split(' ', 1)[0])].add(l.split(' ', 1)[1].replace(' ', ''))

    def longest(s, sign, ns):
        m = [n for n in s.d[(sign, 'namespace')] if n == '' or ns == n or ns.startswith(n + '::')]
        return max(map(len, m)) if m else -1

    def nsbind(s, ns): return s.longest('+', ns) > s.longest('-', ns)
    def nsskip(s, ns): return s.longest('-', ns) > s.longest('+', ns)

    def picked(s, c): return c.full in s.d[('+', 'class')] or c.plain in s.d[('+', 'class')]

    def cskip(s, c):
        for n in (c.full, c.plain):
            if n in s.d[('-', 'class')]: return True
            if n in s.d[('+', 'class')]: return False
        return s.nsskip(c.ns) or any(s.cskip(a) for a in c.targ or [])

    def cbind(s, c):
        if s.picked(c): return True
        return s.nsbind(c.ns) and not any(s.cskip(a) for a in c.targ or [])

    def fskip(s, f):
        for n in ([f.full.replace(' ', '')] if f.full else []) + [f.plain]:
            if n in s.d[('-', 'function')]: return True
            if n in s.d[('+', 'function')]: return False
        return f.any in s.d[('-', 'function')] or (s.nsskip(f.ns) and not (f.owner and s.picked(f.owner))) or any(s.cskip(c) for c in (f.cls, f.ret) if c)

    def fbind(s, f):
        if f.plain in s.d[('+', 'function')] or f.full and f.full.replace(' ', '') in s.d[('+', 'function')]: return True
        return s.nsbind(f.ns) or any(s.cbind(c) for c in (f.cls, f.ret) if c)

    def eskip(s, e, ns, owner=None):
        if e in s.d[('-', 'enum')]: return True
        if e in s.d[('+', 'enum')]: return False
        return s.nsskip(ns) and not (owner and s.picked(owner))

    def surface(s):
        """{path: 'class' | 'enum' | 'field' | set of overloads}"""
        p, out = s.p, {}
        funcs = [f for f in p.functions if not s.fskip(f) and s.fbind(f)]
        todo, bound = [c for c in p.classes + p.templates if not s.cskip(c) and s.cbind(c)], []
        for f in funcs: todo += [c for c in (f.cls, f.ret) if c]
        while todo:
            c = todo.pop()
            if c in bound or s.cskip(c): continue
            if c.std: continue  # what is behind a smart pointer or a template argument is not brought along
            bound.append(c)
            if c.base: todo.append(c.base)
            for m in c.methods:
                if m.cls and not s.fskip(m): todo.append(m.cls)
        P = lambda ns, n: ''.join('.' + x for x in ns.split('::') if x) + '.' + n
        for f in funcs: out.setdefault(P(f.ns, f.name), set()).update([f.par[1] + (':' + f.par[2] if not f.cls else '')] + [''] * f.default)
        for e in p.enums:
            ns, _, n = e.rpartition('::')
            if not s.eskip(e, ns) and (s.nsbind(ns) or e in s.d[('+', 'enum')] or any(f.en == e for f in funcs)): out[P(ns, n)] = 'enum'
        for c in bound:
            k = P(c.ns, c.py())
            b = c.base
            out[k] = ('class', P(b.ns, b.py()) if b and b in bound else '')
            for x in c.fields:
                if f'{c.full}::{x}'.replace(' ', '') not in s.d[('-', 'field')]: out[k + '.' + x] = 'field'
            for m in c.methods:
                if not s.fskip(m): out.setdefault(k + '.' + m.name, set()).add(m.par[1] + (':' + m.par[2] if not m.cls else ''))
            for e in c.enums:
                if not s.eskip(f'{c.plain}::{e}', c.ns, c): out[k + '.' + e] = 'enum'
            if c.inner and c.inner.plain not in s.d[('-', 'class')]:
                out[k + '.In'] = ('class', '')
                out[k + '.In.w'] = 'field'
        return out


PYT = {'i': 'int', 'l': 'int', 'k': 'int', 's': 'std::string', 'd': 'double'}


def observed(sn):
    """the same form, from the snapshot of the imported module"""
    import re
    out = {}
    for k, v in sn.items():
        if v[0] == 'module' or '#' in k: continue
        last = k.rsplit('.', 1)[1]
        if last.startswith('__') or last == 'assign': continue
        if v[0] == 'class':
            if k + '#members' in sn: out[k] = 'enum'
            else: out[k] = ('class', ''.join('.' + b.split('.', 1)[1] for b in v[1] if b.startswith('mod.')))
        elif k.rsplit('.', 1)[0] + '#members' in sn: continue
        elif v[0] == 'property': out[k] = 'field'
        else: out[k] = set(m[2] for m in re.finditer(r'(?m)^(?:\d+\. )?' + re.escape(last) + r'\((self: [^,)]*(?:, )?)?(.*?)\) -> ', v[1] or ''))
    return out


def norm(k, v):
    """reference overloads as pybind11 prints them"""
    import re
    if not isinstance(v, set): return v
    r = set()
    for x in v:
        n, _, t = x.partition(':')
        r.add(n + (': ' + {'int': 'int', 'long': 'int', 'std::string': 'str', 'double': 'float'}[t] if t in ('int', 'long', 'std::string', 'double') else ''))
    return r


def random_case(seed, nlines=None):
    name = f'random-{seed}'

    def run(ctx):
        r = random.Random(seed)
        p = Project(r)
        lines = p.directives()
        want = Ref(p, lines).surface()
        split = r.random() < .3 and [l for l in lines if l.startswith('+namespace')]
        bind = [l[11:] for l in lines if split and l.startswith('+namespace')]
        cfg = '\n'.join(l for l in lines if not (split and l.startswith('+namespace'))) + '\n'
        fs = {'a.hpp': PRE + p.header, 'main.hpp': '#include <a.hpp>\n'}
        ok = ctx.project(fs, snap.CODE, config=cfg, bind=bind)
        if not ok: return
        sn = snap.load(ctx.wd / 'driver.journal.snap')
        if sn is None: return
        got = observed(sn)
        for k in sorted(set(want) | set(got)):
            w, g = want.get(k), got.get(k)
            if isinstance(w, set) and isinstance(g, set):
                w, g = norm(k, w), {x if x.split(':')[0] not in ('c', 't') or ': ' in x and x.split(': ')[1] in ('int', 'float') and x[0] == 't' else x.split(':')[0] for x in g}
                w = {x for x in w}
            ctx.ok(w == g, f'{k}', lambda: f'directives {lines}: {k} should be {w or "absent"}, is {g or "absent"}')
        # the order of the lines has no influence
        l2 = [l for l in lines if not (split and l.startswith('+namespace'))]
        r.shuffle(l2)
        rc, o, e = ctx.binder(out='out2', config='\n'.join(l2) + '\n', bind=bind)
        if ctx.eq(rc, 0, 'exit with shuffled lines'):
            from ..core import read_tree
            a, b = read_tree(ctx.wd / 'out'), read_tree(ctx.wd / 'out2')
            ctx.ok(a == b, 'order of lines', lambda: f'directives {lines} and {l2} yield different files: {[k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]}')
        ctx.stat('entities_selected', len(want))
    return name, run


def neighbours(ctx):
    """names that extend or shorten each other, in namespaces that do too: a directive means exactly the entity it names"""
    r = random.Random(f'{ctx.check.seed}-neighbours')
    names = {'class': ['X', 'XY', 'XYZ', 'YX'], 'enum': ['E', 'EE', 'EEF', 'FE'], 'function': ['f', 'ff', 'ffg', 'gf'], 'field': ['p', 'pp', 'ppq', 'qp'], 'method': ['m', 'mm', 'mmn', 'nm'], 'inner': ['In', 'Inn', 'nIn'], 'nested': ['N', 'NN', 'KN']}
    spaces = ['a', 'aa', 'a::b', 'a::bb', 'ba', 'b::a', 'b']
    src, skips, drv = '', [], ''
    for s in spaces:
        t = ''.join(f'struct {c} {{ int d; }};\n' for c in names['class']) + ''.join(f'enum class {e} {{ z }};\n' for e in names['enum']) + ''.join(f'inline int {f}(int) {{ return 1; }}\n' for f in names['function'])
        for h in ('H', 'HH'):
            t += f'struct {h} {{ ' + ' '.join(f'int {x};' for x in names['field']) + ' ' + ' '.join(f'int {x}(int) {{ return 1; }}' for x in names['method']) + ' ' + ' '.join(f'enum class {x} {{ w }};' for x in names['inner']) + ' ' + ' '.join(f'struct {x} {{ int y; }};' for x in names['nested']) + ' };\n'
        src += ''.join(f'namespace {n} {{ ' for n in s.split('::')) + '\n' + t + '}' * (s.count('::') + 1) + '\n'
        for k in ('class', 'enum', 'function'):
            out = r.sample(names[k], r.choice([1, 1, 2]))
            skips += [f'-{k} {s}::{n}' for n in out]
            drv += f't({f"{s} {k} without {out}"!r}, lambda: [n for n in {names[k]!r} if hasattr(ns({s!r}), n)], ret={[n for n in names[k] if n not in out]!r})\n'
        for h in ('H', 'HH'):
            for k, d in (('field', 'field'), ('method', 'function'), ('inner', 'enum'), ('nested', 'class')):
                out = r.sample(names[k], r.choice([0, 1, 1]))
                skips += [f'-{d} {s}::{h}::{n}' for n in out]
                drv += f't({f"{s}::{h} {k} without {out}"!r}, lambda: [n for n in {names[k]!r} if hasattr(ns({s!r}).{h}, n)], ret={[n for n in names[k] if n not in out]!r})\n'
    r.shuffle(skips)
    ctx.stat('directives', len(skips))
    ctx.project({'a.hpp': PRE + src, 'main.hpp': '#include <a.hpp>\n'}, DPRE + drv, config='\n'.join(skips) + '\n', bind=[''])


def picks(ctx):
    """the same for entities that are requested one by one from namespaces that are not"""
    r = random.Random(f'{ctx.check.seed}-picks')
    names = {'class': ['X', 'XY', 'XYZ', 'YX'], 'enum': ['E', 'EE', 'EEF', 'FE'], 'function': ['f', 'ff', 'ffg', 'gf']}
    spaces = ['a', 'aa', 'a::b', 'a::bb', 'ba', 'b::a', 'b']
    src, lines, drv = '', ['+namespace other'], ''
    for s in spaces:
        t = ''.join(f'struct {c} {{ int d; }};\n' for c in names['class']) + ''.join(f'enum class {e} {{ z }};\n' for e in names['enum']) + ''.join(f'inline int {f}(int) {{ return 1; }}\n' for f in names['function'])
        src += ''.join(f'namespace {n} {{ ' for n in s.split('::')) + '\n' + t + '}' * (s.count('::') + 1) + '\n'
        for k in names:
            inn = r.sample(names[k], r.choice([1, 1, 2]))
            lines += [f'+{k} {s}::{n}' for n in inn]
            drv += f't({f"{s} {k} only {inn}"!r}, lambda: [n for n in {names[k]!r} if hasattr(ns({s!r}), n)], ret={[n for n in names[k] if n in inn]!r})\n'
    r.shuffle(lines)
    ctx.project({'a.hpp': PRE + src + 'namespace other { inline int o() { return 1; } }\n', 'main.hpp': '#include <a.hpp>\n'}, DPRE + drv, config='\n'.join(lines) + '\n', bind=[])


def cases(check, rng, tier):
    return [('neighbours', neighbours), ('picks', picks)] + [random_case(s) for s in seeds(rng, nworlds(tier, 16, 300))]


CHECK = Check('C03', 'exploration', 'the surface of the imported module, compared with a reference evaluation of the directives',
              'one observation per entity that is in the module or should be (kind, base, set of overloads); non-trivial = distinct (project, directives, entity)', cases,
              assumptions=['pybind11 2.11 and clang 14 of this sandbox'])
