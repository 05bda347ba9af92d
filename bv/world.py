"""Random C++ projects together with the model of the Python module binder has to produce for them."""
import itertools


class Ty:
    """a C++ parameter type: spelling, python-side kind, value source and how C++ logs it"""

    def __init__(self, cpp, kind, val, log='{}', base=None, dflt=True, cls=None, ret=True, enum=False):
        self.enum = enum
        self.cpp, self.kind, self.val, self.log, self.base, self.dflt, self.cls, self.ret = cpp, kind, val, log, base or cpp, dflt, cls, ret


def ivals(lo, hi):
    def f(r):
        v = r.choice([lo, hi, 0, 1, 2, 7, r.randint(lo, hi)])
        return repr(v), str(v), (f'({v})' if -2**31 < v < 2**31 else (f'{v}ULL' if v >= 2**63 else f'({v + 1}LL-1)' if v < 0 else f'{v}LL'))
    return f


def fval(r):
    v = r.choice([0.0, 1.5, -2.25, 1024.125, 3.0, -0.5])
    return repr(v), '%.17g' % v, repr(v)


def bval(r):
    v = r.random() < .5
    return repr(v), 'true' if v else 'false', 'true' if v else 'false'


STR = ['', 'abc', 'x y', 'Q_1', 'long string with, commas', 'tab', 'eé']


def sval(r):
    v = r.choice(STR)
    return repr(v), f"'{v}'", '"' + v + '"'


def cval(r):
    v = r.choice('abzQ7_')
    return repr(v), str(ord(v)), f"'{v}'"


BASIC = [
    Ty('int', 'I', ivals(-2**31, 2**31 - 1)), Ty('long', 'I', ivals(-2**63, 2**63 - 1)), Ty('short', 'I', ivals(-2**15, 2**15 - 1)),
    Ty('unsigned int', 'I', ivals(0, 2**32 - 1)), Ty('unsigned long', 'I', ivals(0, 2**64 - 1)), Ty('unsigned short', 'I', ivals(0, 2**16 - 1)),
    Ty('long long', 'I', ivals(-2**63, 2**63 - 1)), Ty('unsigned long long', 'I', ivals(0, 2**64 - 1)), Ty('std::size_t', 'I', ivals(0, 2**64 - 1)),
    Ty('unsigned char', 'I', ivals(0, 255)), Ty('signed char', 'I', ivals(-128, 127)), Ty('const int', 'I', ivals(-2**31, 2**31 - 1), base='int'), Ty('int const &', 'I', ivals(-2**31, 2**31 - 1), base='int'),
    Ty('double', 'F', fval), Ty('float', 'F', fval), Ty('const double &', 'F', fval, base='double'), Ty('bool', 'I', bval), Ty('const bool', 'I', bval, base='bool'),
    Ty('std::string', 'S', sval), Ty('std::string const &', 'S', sval, base='std::string'), Ty('const char *', 'S', sval, base='std::string'), Ty('const std::string', 'S', sval, base='std::string'), Ty('char', 'S', cval),
]
PNAMES = ['a', 'b', 'value', 'x', 'y_', 'lambda', 'from', 'count', 'n', 'opt', 'Upper', 'p1', 'very_long_parameter_name_number_one', 'data', '_u', 'is', 'None_', 'i', 'j', 'k', 'q0', 'q00']
NSNAMES = ['a', 'ab', 'abc', 'core', 'core2', 'utility', 'nonlocal', 'global', 'detail', 'n1', 'n_1', 'Big', 'bits', 'a_b', 'stdx']
HDRS = ['a.hpp', 'a_1.hpp', 'b.h', 'c.hh', 'sub/d.hpp', 'sub_d.hpp', 'sub/deep/e.hpp', 'weird.name.v2.hpp', 'x-y.hpp', 'xy.hpp', 'noext', 'Caps.HPP', 'f.hxx', 'bits/q.hpp', 'sub/d.h', 'a.fwd.hh', 'mod.hpp', '1st.hpp', 'std/vector.hpp']


class Fn:
    def __init__(self, id, name, params, ret, **kw):
        self.id, self.name, self.params, self.ret = id, name, params, ret  # params: (Ty, name, default)
        self.static = self.const = self.virtual = self.pure = self.final = False
        self.noexcept = ''
        self.access, self.deleted, self.doc, self.shadow_const, self.unnamed = 'public', False, None, False, False
        self.__dict__.update(kw)

    def arities(self):
        n = len(self.params)
        first = next((i for i, p in enumerate(self.params) if p[2]), n)
        return list(range(first, n + 1))

    def sigs(self):
        return {tuple(p[0].kind for p in self.params[:k]) for k in self.arities()}


class Enum:
    def __init__(self, name, scoped, under, vals, path, doc=None):
        self.name, self.scoped, self.under, self.vals, self.path, self.doc = name, scoped, under, vals, path, doc

    cppname = property(lambda s: '::'.join(s.path + [s.name]))


class Cls:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.bases, self.ctors, self.methods, self.fields, self.enums, self.nested, self.hidden = [], [], [], [], [], [], []
        self.kw, self.final, self.doc, self.abstract, self.hpath, self.outer, self.copy = 'struct', False, None, False, None, None, None
        self.virtual_bases = set()
        self.base_access = {}

    cppname = property(lambda s: '::'.join(s.path + [s.name]))

    def ancestors(self):
        r = []
        for b in self.bases: r += [b] + b.ancestors()
        return r

    def allbases(self):
        r = []
        for b in self.bases:
            if self.base_access.get(b, 'public') != 'public': continue
            r.append(b)
            r += b.allbases()
        return r


class World:
    def __init__(self, rng, ns=3, headers=3, classes=4, enums=2, functions=8, feats=(), maxparams=4, root='mod', depth=3):
        self.r, self.feats, self.maxparams, self.root = rng, set(feats), maxparams, root
        self.uid = itertools.count(1)
        r = rng
        # namespaces
        self.ns = [[]]
        while len(self.ns) < ns + 1:
            base = r.choice(self.ns)
            cand = base + [r.choice(NSNAMES)]
            if len(cand) <= depth and cand not in self.ns: self.ns.append(cand)
        names = r.sample(HDRS, min(headers, len(HDRS)))
        self.headers = [{'path': p, 'items': [], 'inc': set()} for p in names]
        self.enums, self.classes, self.functions = [], [], []
        self.typedefs = []
        order = ['E'] * enums + ['C'] * classes + ['F'] * functions
        if order:
            head = order[:1]
            rest = order[1:]
            r.shuffle(rest)
            order = head + rest
        self.sets = {}
        per = max(1, (len(order) + len(self.headers) - 1) // len(self.headers))
        for i, k in enumerate(order):
            h = self.headers[min(i // per, len(self.headers) - 1)]
            path = r.choice(self.ns) if r.random() < .9 else []
            if k == 'E': self.add_enum(h, path)
            elif k == 'C': self.add_class(h, path)
            else: self.add_function(h, path)

    # ---- generation
    def n(self):
        return next(self.uid)

    def mkdoc(self, who):
        if 'doc' not in self.feats or self.r.random() < .3: return None
        return f'Doc text of {who} number {self.n()}.'

    def mkenum(self, path):
        r = self.r
        n = self.n()
        scoped = r.random() < .5
        under = r.choice(['', '', 'int', 'unsigned char', 'long', 'short', 'signed char'])
        vals, v, used = [], 0, set()
        for i in range(r.randint(1, 6)):
            if r.random() < .4: v = r.choice([v + 1, v + 3, 100 + i]) if under not in ('', 'int', 'long', 'short', 'signed char') or r.random() < .5 else -r.randint(1, 100)
            if r.random() > .15:
                while v in used: v += 1
            used.add(v)
            vals.append((f'v{n}_{r.choice("abcXYZ")}{i}', v))
            v += 1
        return Enum(f'E{n}', scoped, under, vals, path, self.mkdoc('enum'))

    def add_enum(self, h, path):
        e = self.mkenum(path)
        e.h = h
        self.enums.append(e)
        h['items'].append(('E', e))

    def usable(self, h, lst):
        return [x for x in lst if self.reach(h, x.h)]

    def reach(self, h, o):
        return self.headers.index(o) <= self.headers.index(h)

    def ety(self, e):
        def val(r):
            nm, v = r.choice(e.vals)
            return f'{self.pyq(e)}.{nm}', f'e{v}', f'::{e.cppname}::{nm}'
        return Ty('::' + e.cppname, 'I', val, enum=True)

    def cty(self, c, form):
        sp = '::' + c.cppname
        t = f't_{c.name}'

        def val(r):
            n = r.randint(1, 9999)
            return f'{self.pyq(c)}({n})', str(n), f'{sp}({n})'
        cpp, log, d = {'v': (sp, '{}.' + t, True), 'cr': (f'{sp} const &', '{}.' + t, True), 'r': (f'{sp} &', '{}.' + t, False), 'p': (f'{sp} *', '{}->' + t, False), 'cp': (f'const {sp} *', '{}->' + t, False), 'sp': (f'std::shared_ptr<{sp}>', '{}->' + t, False), 'csp': (f'std::shared_ptr<{sp}> const &', '{}->' + t, False)}[form]
        return Ty(cpp, 'C', val, log, base=sp, dflt=d, cls=(c, form), ret=c.copy != 'deleted')

    def pick_type(self, h):
        r = self.r
        x = r.random()
        es, cs = self.usable(h, self.enums), [c for c in self.usable(h, self.classes) if not c.abstract]
        if x < .15 and es:
            e = r.choice(es)
            self.use(h, e)
            return self.ety(e)
        if x < .40 and cs:
            c = r.choice(cs)
            self.use(h, c)
            return self.cty(c, r.choice(['v', 'cr', 'cr', 'r', 'p', 'cp', 'sp', 'csp'][c.copy == 'deleted':]))
        return r.choice(BASIC)

    def use(self, h, x):
        if x.h is not h: h['inc'].add(x.h['path'])

    def mkparams(self, h, n, defaults=True):
        r = self.r
        names = r.sample(PNAMES, n)
        ps, started = [], False
        for i in range(n):
            t = self.pick_type(h)
            d = None
            if defaults and (started or (i >= n // 2 and r.random() < .3)):
                for _ in range(30):
                    if t.dflt: break
                    t = self.pick_type(h)
                else: t = BASIC[0]
                d = t.val(r)
                started = True
            ps.append((t, names[i], d))
        return ps

    def mkret(self, h, params):
        r = self.r
        x = r.random()
        cs = [c for c in self.usable(h, self.classes) if not c.abstract]
        if x < .15: return ('void',)
        if x < .35 and params:
            k = r.randrange(len(params))
            if params[k][0].ret: return ('echo', k)
            return ('int', 1000 + self.n())
        if x < .5 and cs:
            c = r.choice(cs)
            self.use(h, c)
            return ('cls', c, r.randint(10000, 99999), r.choice(['sp', 'np'] if c.copy == 'deleted' else ['v', 'v', 'sp', 'np']))
        if x < .6: return ('str', f's{self.n()}')
        if x < .7: return ('dbl', self.n() + .5)
        if x < .76: return ('bool', r.random() < .5)
        return ('int', 1000 + self.n())

    def mkfn(self, h, name, group, maxp=None):
        """group: existing functions of the same name in the same scope"""
        r = self.r
        for _ in range(20):
            n = r.choice([0, 1, 1, 2, 2, 3, 3, r.randint(0, maxp or self.maxparams)])
            ps = self.mkparams(h, n)
            f = Fn('', name, ps, None)
            if not any(f.sigs() & g.sigs() for g in group): break
        else: return None
        f.ret = self.mkret(h, ps)
        f.id = f'{name}#{self.n()}'
        f.doc = self.mkdoc('function')
        return f

    def add_function(self, h, path):
        r = self.r
        keys = [k for k in self.sets if k[0] == tuple(path)]
        if keys and r.random() < .4: key = r.choice(keys)
        else: key = (tuple(path), f'fn{self.n()}')
        f = self.mkfn(h, key[1], self.sets.get(key, []))
        if not f: return
        f.path, f.h = path, h
        f.predecl = r.random() < .25 and not any(p[2] for p in f.params)
        self.sets.setdefault(key, []).append(f)
        self.functions.append(f)
        h['items'].append(('F', f))

    def add_class(self, h, path, outer=None, depth=0):
        r = self.r
        c = Cls(f'K{self.n()}', path)
        c.h, c.outer = h, outer
        c.kw = r.choice(['struct', 'class'])
        c.doc = self.mkdoc('class')
        cs = [x for x in self.usable(h, self.classes) if not x.final and not x.outer]
        if cs and r.random() < .5:
            for b in r.sample(cs, min(len(cs), r.choice([1, 1, 1, 2]))):
                if any(set([x] + x.ancestors()) & set([b] + b.ancestors()) for x in c.bases): continue
                c.bases.append(b)
                self.use(h, b)
                c.base_access[b] = 'public' if 'privbase' not in self.feats or 'virtual' in self.feats else r.choice(['public'] * 4 + ['private', 'protected'])
                if self.virtuals(b): c.base_access[b] = 'public'
        nm = c.name
        # constructors: (int tag) is always there
        c.ctors = [Fn(f'{nm}.ctor0', nm, [(BASIC[0], 'tag_', None)], None)]
        if r.random() < .8: c.ctors.append(Fn(f'{nm}.ctor1', nm, [], None))
        for i in range(r.choice([0, 0, 1, 2])):
            f = self.mkfn(h, nm, c.ctors)
            if f:
                f.id, f.doc = f'{nm}.ctor{i + 2}', None
                if f.params and f.params[0][0].kind == 'C' and f.params[0][0].cls[0] in c.ancestors(): continue
                c.ctors.append(f)
        if 'hidden' in self.feats and r.random() < .5: c.hidden.append(('ctor', r.choice(['private', 'protected']), f'{nm}(double, double, double, double, double, double, double)'))
        c.copy = r.choice([None, None, 'user', 'user', 'deleted'])
        if any(b.copy == 'deleted' for b in c.bases): c.copy = 'deleted'
        # fields
        for i in range(r.choice([0, 1, 2, 3])):
            t = self.pick_type(h)
            for _ in range(20):
                if t.cls is None and t.base != 'const char *' and t.cpp not in ('int const &', 'const double &', 'std::string const &', 'const char *'): break
                t = self.pick_type(h)
            else: t = BASIC[0]
            c.fields.append((f'fld{self.n()}', t, t.val(r)))
        # methods
        groups = {}
        for i in range(r.choice([1, 2, 3, 4, 6])):
            name = r.choice(list(groups)) if groups and r.random() < .35 else f'm{self.n()}'
            g = groups.setdefault(name, [])
            f = self.mkfn(h, name, g)
            if not f:
                if not g: del groups[name]
                continue
            if g: f.static = g[0].static
            else: f.static = r.random() < .15
            f.const = not f.static and r.random() < .4
            f.access = r.choice(['public'] * 8 + ['private', 'protected']) if 'hidden' in self.feats and not g else 'public'
            if g and g[0].access != 'public': f.access = g[0].access
            if f.access == 'public' and not f.static and not g and 'virtual' in self.feats and r.random() < .5 and self.virtualok(f):
                f.virtual = True
                f.pure = r.random() < .25
                f.final = not f.pure and r.random() < .1
                f.noexcept = r.choice(['', '', '', 'noexcept', 'noexcept(true)', 'noexcept(false)']) if not f.pure else ''
            elif not f.static and not f.const and r.random() < .15: f.shadow_const = True  # a const twin that must not be bound
            elif 'hidden' in self.feats and not g and r.random() < .12: f.deleted = True
            g.append(f)
            c.methods.append(f)
            if f.virtual or f.deleted or f.access != 'public': del groups[name]
        # overrides of inherited virtuals
        for b in c.bases:
            for m in self.virtuals(b):
                if m.final or any(x.name == m.name for x in c.methods): continue
                if m.pure or r.random() < .35:
                    o = Fn(f'{m.name}#{self.n()}', m.name, m.params, m.ret, const=m.const, virtual=True, noexcept=m.noexcept, override=True)
                    if o.ret[0] == 'int': o.ret = ('int', 1000 + self.n())
                    if o.ret[0] == 'str': o.ret = ('str', f's{self.n()}')
                    if m.pure and r.random() < .3:
                        continue  # stays abstract
                    o.final = r.random() < .1
                    c.methods.append(o)
        c.abstract = bool(self.pures(c))
        if not c.abstract and not outer and r.random() < .1 and 'virtual' in self.feats: c.final = True
        if r.random() < .35: c.enums.append(self.mkenum(path + [nm]))
        if r.random() < .3 and depth < 2 and 'nested' in self.feats:
            k = self.add_class_nested(h, c, depth + 1)
            c.nested.append(k)
        if not outer:
            self.classes.append(c)
            h['items'].append(('C', c))
        return c

    def add_class_nested(self, h, outer, depth):
        sv = self.feats
        k = self.add_class(h, outer.path + [outer.name], outer=outer, depth=depth)
        return k

    def virtualok(self, f):
        """python overrides of f are supported: value-like parameters and results"""
        return f.ret[0] in ('void', 'int', 'str', 'dbl', 'bool') and all(p[0].cls is None or p[0].cls[1] in ('v', 'cr', 'cp', 'p', 'r', 'sp') for p in f.params) and not any(p[2] for p in f.params)

    def virtuals(self, c):
        """most derived declarations of virtual functions visible in c (by name: virtual names are not overloaded)"""
        d = {}
        for b in reversed(c.allbases()):
            for m in b.methods:
                if m.virtual: d.setdefault(m.name, []).append(m)
        r = {}
        # nearest first: c itself, then breadth-first bases
        q = [c]
        while q:
            x = q.pop(0)
            for m in x.methods:
                if m.virtual and m.name not in r: r[m.name] = m
            q += x.bases
        return list(r.values())

    def pures(self, c):
        return [m for m in self.virtuals(c) if m.pure]

    # ---- python side names
    def pyns(self, path):
        return "ns(%r)" % '::'.join(path)

    def pyq(self, x):
        """python expression for class or enum"""
        o = getattr(x, 'outer', None)
        if o: return self.pyq(o) + '.' + x.name
        cl = self.cls_by_path(x.path)
        return (self.pyq(cl) if cl else self.pyns(x.path)) + '.' + x.name

    def allclasses(self):
        def rec(l):
            for c in l:
                yield c
                yield from rec(c.nested)
        return list(rec(self.classes))

    def cls_by_path(self, path):
        for c in self.allclasses():
            if c.path + [c.name] == path: return c
        return None

    # ---- C++ emission
    def retcpp(self, f):
        k = f.ret[0]
        if k == 'echo':
            t = f.params[f.ret[1]][0]
            return t.base
        return {'void': 'void', 'int': 'int', 'str': 'std::string', 'dbl': 'double', 'bool': 'bool'}.get(k) or {'v': '::{}', 'sp': 'std::shared_ptr<::{}>', 'np': '::{} *'}[f.ret[3]].format(f.ret[1].cppname)

    def retstmt(self, f):
        k = f.ret[0]
        if k == 'void': return ''
        if k == 'echo':
            t, n, _ = f.params[f.ret[1]]
            return f' return {"*" if t.cls and t.cls[1] in ("p", "cp", "sp", "csp") else ""}{n};'
        if k == 'str': return f' return "{f.ret[1]}";'
        if k == 'cls':
            sp = '::' + f.ret[1].cppname
            return {'v': f' return {sp}({f.ret[2]});', 'sp': f' return std::make_shared<{sp}>({f.ret[2]});', 'np': f' return new {sp}({f.ret[2]});'}[f.ret[3]]
        return f' return {str(f.ret[1]).lower()};'

    def pycpp(self, n):
        return n

    def params_cpp(self, f, defaults=True):
        return ', '.join(f'{t.cpp} {n}' + (f' = {d[2]}' if d and defaults else '') for t, n, d in f.params)

    def evcall(self, f, extra=()):
        a = ''.join(', ' + t.log.format(n) for t, n, d in f.params)
        return f'vt::ev("{f.id}"{a});'

    def emit_doc(self, d, ind):
        return f'{ind}/// {d}\n' if d else ''

    def emit_enum(self, e, ind=''):
        s = self.emit_doc(e.doc, ind)
        return s + f'{ind}enum {"class " if e.scoped else ""}{e.name}{" : " + e.under if e.under else ""} {{ {", ".join(f"{n} = {v}" for n, v in e.vals)} }};\n'

    def emit_class(self, c, ind=''):
        bs = ', '.join(f'{c.base_access.get(b, "public")} ::{b.cppname}' for b in c.bases)
        s = self.emit_doc(c.doc, ind) + f'{ind}{c.kw} {c.name}{" final" if c.final else ""}{" : " + bs if bs else ""} {{\n{ind}public:\n'
        i2 = ind + '\t'
        for e in c.enums: s += self.emit_enum(e, i2)
        for k in c.nested: s += self.emit_class(k, i2)
        s += f'{i2}int t_{c.name};\n'
        for n, t, v in c.fields: s += f'{i2}{t.cpp} {n} = {v[2]};\n'

        def inits(tag):
            l = [f'::{b.cppname}({tag} + 1)' for b in c.bases] + [f't_{c.name}({tag})']
            return ', '.join(l)
        for f in c.ctors:
            tag = f.params[0][1] if f.id.endswith('.ctor0') else str(5000 + sum(map(ord, f.id)))
            f.tag = None if f.id.endswith('.ctor0') else int(tag)
            s += f'{i2}{c.name}({self.params_cpp(f)}) : {inits(tag)} {{ {self.evcall(f) if not f.id.endswith("ctor0") else ""} }}\n'
        if c.copy == 'user':
            bi = ''.join(f'::{b.cppname}(static_cast<::{b.cppname} const &>(o)), ' for b in c.bases)
            fi = ''.join(f', {n}(o.{n})' for n, t, v in c.fields)
            s += f'{i2}{c.name}({c.name} const &o) : {bi}t_{c.name}(o.t_{c.name}){fi} {{}}\n'
        if c.copy == 'deleted': s += f'{i2}{c.name}({c.name} const &) = delete;\n'
        if 'virtual' in self.feats and any(m.virtual for m in c.methods): s += f'{i2}virtual ~{c.name}() {{}}\n'
        for f in c.methods:
            s += f'{ind}{f.access}:\n' + self.emit_doc(f.doc, i2)
            pre = 'static ' if f.static else 'virtual ' if f.virtual and not getattr(f, 'override', 0) else ''
            post = ' const' if f.const else ''
            if f.noexcept: post += ' ' + f.noexcept
            if getattr(f, 'override', 0): post += ' override'
            if f.final: post += ' final'
            head = f'{i2}{pre}{self.retcpp(f)} {f.name}({self.params_cpp(f)}){post}'
            if f.deleted: s += head + ' = delete;\n'
            elif f.pure: s += head + ' = 0;\n'
            else: s += head + f' {{ {self.evcall(f)}{self.retstmt(f)} }}\n'
            if f.shadow_const: s += f'{i2}{self.retcpp(f)} {f.name}({self.params_cpp(f, False)}) const {{ vt::ev("{f.id}.CONST");{self.retstmt(f)} }}\n'
        if c.hidden:
            for k, acc, text in c.hidden: s += f'{ind}{acc}:\n{i2}{text};\n'
        if 'hidden' in self.feats:
            s += f'{ind}private:\n{i2}int priv_{c.name} = 1; struct PrivN_{c.name} {{ int z = 0; }}; enum PrivE_{c.name} {{ pe_{c.name} }}; void privm_{c.name}() {{}}\n'
            s += f'{ind}protected:\n{i2}int prot_{c.name} = 1; struct ProtN_{c.name} {{ int z = 0; }}; void protm_{c.name}() {{}} static int protsm_{c.name}() {{ return 1; }}\n'
        return s + f'{ind}}};\n'

    def emit_fn(self, f):
        d = self.emit_doc(f.doc, '')
        ret = self.retcpp(f)
        s = ''
        if getattr(f, 'predecl', False):
            s += d + f'{ret} {f.name}({self.params_cpp(f)});\n'
            d = ''
        return s + d + f'inline {ret} {f.name}({self.params_cpp(f)}) {{ {self.evcall(f)}{self.retstmt(f)} }}\n'

    def wrap(self, path, body):
        return ''.join(f'namespace {p} {{ ' for p in path) + ('\n' if path else '') + body + ('}' * len(path) + '\n' if path else '')

    def callers(self, c):
        """free functions through which C++ calls the virtual functions of c"""
        r = []
        for m in self.virtuals(c):
            owner = c
            r.append((m, f'call_{c.name}_{m.name}'))
        return r

    def files(self, extra_main=''):
        fs = {}
        for h in self.headers:
            s = '' if self.headers.index(h) % 2 else '#pragma once\n'
            g = f'G{self.headers.index(h)}_' + ''.join(ch if ch.isalnum() else '_' for ch in h['path'])
            s += f'#ifndef {g}\n#define {g}\n#include <vt/vt.hpp>\n#include <cstddef>\n#include <memory>\n#include <string>\n'
            for i in sorted(h['inc']): s += f'#include <{i}>\n'
            for k, x in h['items']:
                if k == 'E': s += self.wrap(x.path, self.emit_enum(x))
                elif k == 'C':
                    s += self.wrap(x.path, self.emit_class(x))
                    if 'virtual' in self.feats:
                        t = ''
                        for m, nm in self.callers(x):
                            ps = ', '.join([f'::{x.cppname}{" const" if m.const else ""} &o_'] + [f'{t_.cpp} {n}' for t_, n, d in m.params])
                            t += f'inline {self.retcpp(m)} {nm}({ps}) {{ return o_.{m.name}({", ".join(n for _, n, _ in m.params)}); }}\n'
                        if t: s += self.wrap(x.path, t)
                else: s += self.wrap(x.path, self.emit_fn(x))
            fs[h['path']] = s + '#endif\n'
        order = list(self.headers)
        self.r.shuffle(order)
        fs['main.hpp'] = ''.join(f'#include <{h["path"]}>\n' for h in order) + extra_main
        return fs

    # ---- expectations
    def module_names(self, path):
        """names the module of namespace `path` has to contain"""
        s = set()
        for n in self.live_ns():
            if len(n) == len(path) + 1 and list(n[:-1]) == path: s.add(n[-1] + '_' if n[-1] in ('nonlocal', 'global') else n[-1])
        for e in self.enums:
            if e.path == path:
                s.add(e.name)
                if not e.scoped: s |= {v for v, _ in e.vals}
        for c in self.classes:
            if c.path == path:
                s.add(c.name)
                if 'virtual' in self.feats: s |= {nm for _, nm in self.callers(c)}
        for f in self.functions:
            if f.path == path: s.add(f.name)
        return sorted(s)

    def live_ns(self):
        s = set()
        for x in self.enums + self.classes + self.functions:
            for i in range(1, len(x.path) + 1): s.add(tuple(x.path[:i]))
        return sorted(s)

    def class_names(self, c):
        s = {f't_{c.name}'} | {n for n, _, _ in c.fields}
        for m in c.methods:
            if m.access == 'public' and not m.deleted: s.add(m.name)
        for e in c.enums:
            s.add(e.name)
            if not e.scoped: s |= {v for v, _ in e.vals}
        for k in c.nested: s.add(k.name)
        return sorted(s)

    # ---- driver
    def retpy(self, f, args):
        """(norm, expected) for the result of f"""
        k = f.ret[0]
        if k == 'void': return '', 'None'
        if k == 'echo':
            t = f.params[f.ret[1]][0]
            a = args[f.ret[1]]
            if t.cls: return f', norm=lambda o: (type(o) is {self.pyq(t.cls[0])}, o.t_{t.cls[0].name})', f'(True, {a[1]})'
            return '', a[0]
        if k == 'cls': return f', norm=lambda o: (type(o) is {self.pyq(f.ret[1])}, o.t_{f.ret[1].name})', f'(True, {f.ret[2]})'
        return '', repr(f.ret[1])

    def call_line(self, prop, label, fexpr, f, args, pyargs, evs=None):
        norm, exp = self.retpy(f, args)
        ev = evs if evs is not None else [f'{f.id}({",".join(a[1] for a in args)})']
        return f'T({prop!r}, {label!r}, lambda: {fexpr}({pyargs}), ret={exp}, ev={ev!r}{norm})\n'

    def fn_driver(self, f, fexpr, who, tries=2):
        r, s = self.r, ''
        for k in f.arities():
            full = k == len(f.params)
            for t in range(tries if full else 1):
                args = [p[0].val(r) if i < k else p[2] for i, p in enumerate(f.params)]
                prop = 'C04' if full and t == 0 else 'C05' if not full else 'C04'
                s += self.call_line(prop, f'{who} {f.id} call with {k} of {len(f.params)} arguments', fexpr, f, args, ', '.join(a[0] for a in args[:k]))
            if k and full:
                args = [p[0].val(r) for p in f.params]
                npos = r.randint(0, k - 1)
                kw = [(f.params[i][1], args[i][0]) for i in range(npos, k)]
                r.shuffle(kw)
                s += self.call_line('C05', f'{who} {f.id} keyword call', fexpr, f, args, ', '.join([a[0] for a in args[:npos]] + ['**{' + ', '.join(f'{n!r}: {v}' for n, v in kw) + '}']))
            elif k and not full:
                args = [p[0].val(r) if i < k else p[2] for i, p in enumerate(f.params)]
                kw = [(f.params[i][1], args[i][0]) for i in range(k)]
                s += self.call_line('C05', f'{who} {f.id} keyword call, {k} given', fexpr, f, args, '**{' + ', '.join(f'{n!r}: {v}' for n, v in kw) + '}')
        return s

    def group_checks(self, fns, fexpr, who):
        n = sum(len(f.arities()) for f in fns)
        s = f'T("C02", {who + " overload count"!r}, lambda: overloads({fexpr}), ret={n})\n'
        s += f'T("C04", {who + " wrong arguments"!r}, lambda: {fexpr}(*([object()] * 17)), exc="TypeError", ev=[])\n'
        for f in fns:
            if f.doc: s += f'T("C17", {who + " doc"!r}, lambda: {f.doc!r} in {fexpr}.__doc__, ret=True)\n'
        return s

    def driver(self):
        r = self.r
        s = ''
        for p in [()] + self.live_ns():
            p = list(p)
            s += f'T("C02", {"names in module " + ("::".join(p) or "<root>")!r}, lambda: public({self.pyns(p)}), ret={self.module_names(p)!r})\n'
            s += f'T("C02", {"module name " + "::".join(p)!r}, lambda: {self.pyns(p)}.__name__, ret={".".join([self.root] + [x + "_" if x in ("nonlocal", "global") else x for x in p])!r})\n'
        for e in self.enums: s += self.enum_driver(e, self.pyns(e.path))
        for (path, name), fns in self.sets.items():
            fe = f'{self.pyns(list(path))}.{name}'
            s += self.group_checks(fns, fe, '::'.join(path + (name,)))
            for f in fns: s += self.fn_driver(f, fe, '::'.join(path + (name,)))
        for c in self.allclasses(): s += self.class_driver(c)
        return s

    def enum_driver(self, e, scope):
        q = self.pyq(e)
        s = f'T("C10", {e.cppname + " members"!r}, lambda: [(k, int(v)) for k, v in {q}.__members__.items()], ret={e.vals!r})\n'
        for n, v in e.vals:
            s += f'T("C10", {e.cppname + "::" + n!r}, lambda: int({q}.{n}), ret={v})\n'
            first = next(m for m, w in e.vals if w == v)
            s += f'T("C10", {e.cppname + " from value " + str(v)!r}, lambda: {q}({v}) == {q}.{n}, ret=True)\n'
            s += f'T("C10", {e.cppname + "::" + n + " exported"!r}, lambda: hasattr({scope}, {n!r}), ret={not e.scoped})\n'
            if not e.scoped: s += f'T("C10", {e.cppname + "::" + n + " is the same object"!r}, lambda: {scope}.{n} == {q}.{n} and type({scope}.{n}) is {q}, ret=True)\n'
        if e.doc: s += f'T("C17", {e.cppname + " doc"!r}, lambda: {e.doc!r} in {q}.__doc__, ret=True)\n'
        return s

    def class_driver(self, c):
        r, q = self.r, self.pyq(c)
        who = c.cppname
        s = f'T("C02", {who + " members"!r}, lambda: [n for n in own({q}) if not n.startswith("__") and n != "assign"], ret={self.class_names(c)!r})\n'
        s += f'T("C02", {who + " name"!r}, lambda: ({q}.__name__, {q}.__module__), ret={(c.name, ".".join([self.root] + [x + "_" if x in ("nonlocal", "global") else x for x in self.nspath(c)]))!r})\n'
        pb = [b for b in c.bases if c.base_access.get(b, 'public') == 'public']
        s += f'T("C08", {who + " bases"!r}, lambda: [b.__name__ for b in {q}.__bases__], ret={[b.name for b in pb] or ["pybind11_object"]!r})\n'
        for b in c.bases:
            if b not in pb: s += f'T("C21", {who + " hides inaccessible base " + b.name!r}, lambda: issubclass({q}, {self.pyq(b)}), ret=False)\n'
        if c.doc: s += f'T("C17", {who + " doc"!r}, lambda: {c.doc!r} in ({q}.__doc__ or ""), ret=True)\n'
        if 'hidden' in self.feats:
            s += f'T("C21", {who + " non-public members"!r}, lambda: [n for n in dir({q}) if n.startswith(("priv", "prot", "PrivN_{c.name}", "ProtN", "PrivE", "pe_"))], ret=[])\n'
            for m in c.methods:
                if m.access != 'public' or m.deleted: s += f'T("C21", {who + " " + m.name + " not bound"!r}, lambda: {m.name!r} in {q}.__dict__, ret=False)\n'
        for e in c.enums: s += self.enum_driver(e, q)
        # construction
        abstract = c.abstract
        make = f'{q}(4321)'
        tramp = any(m.virtual for m in c.methods + [x for b in self.nonpriv(c) for x in b.methods]) and not c.final
        for f in c.ctors:
            for k in f.arities():
                args = [p[0].val(r) if i < k else p[2] for i, p in enumerate(f.params)]
                tag = args[0][1] if f.id.endswith('.ctor0') else f.tag
                ev = [] if f.id.endswith('.ctor0') else [f'{f.id}({",".join(a[1] for a in args)})']
                s += f'T("C06", {f"{who} {f.id} with {k} arguments"!r}, lambda: {q}({", ".join(a[0] for a in args[:k])}).t_{c.name}, ret={tag}, ev={ev!r})\n'
                if k and (k == len(f.params) or not tramp):
                    args = [p[0].val(r) if i < k else p[2] for i, p in enumerate(f.params)]
                    tag = args[0][1] if f.id.endswith('.ctor0') else f.tag
                    ev = [] if f.id.endswith('.ctor0') else [f'{f.id}({",".join(a[1] for a in args)})']
                    s += f'T("C05", {f"{who} {f.id} keyword construction {k}"!r}, lambda: {q}(**{{{", ".join(f"{f.params[i][1]!r}: {args[i][0]}" for i in range(k))}}}).t_{c.name}, ret={tag}, ev={ev!r})\n'
        if not any(not f.params or f.params[0][2] for f in c.ctors): s += f'T("C06", {who + " has no default constructor"!r}, lambda: {q}(), exc="TypeError")\n'
        if c.copy == 'user' and not abstract:
            s += f'T("C06", {who + " copy"!r}, lambda: (lambda o: (setattr(o, "t_{c.name}", 8765), {q}(o).t_{c.name}, {q}(o) is o)[1:])({make}), ret=(8765, False))\n'
            s += f'T("C06", {who + " copy is independent"!r}, lambda: (lambda o, p: (setattr(p, "t_{c.name}", 1), o.t_{c.name})[1])(*(lambda o: (o, {q}(o)))({make})), ret=4321)\n'
        if c.copy == 'deleted': s += f'T("C06", {who + " deleted copy"!r}, lambda: {q}({make}), exc="TypeError")\n'
        # fields
        s += f'T("C09", {who + " t_ field"!r}, lambda: (lambda o: (o.t_{c.name}, setattr(o, "t_{c.name}", 77), o.t_{c.name}))({make}), ret=(4321, None, 77))\n'
        for n, t, v in c.fields:
            w = t.val(r)
            s += f'T("C09", {who + "." + n + " initial"!r}, lambda: {make}.{n}, ret={v[0]})\n'
            if t.cpp.startswith('const '): s += f'T("C09", {who + "." + n + " read only"!r}, lambda: setattr({make}, {n!r}, {w[0]}), exc="AttributeError")\n'
            else: s += f'T("C09", {who + "." + n + " write"!r}, lambda: (lambda o, p: (setattr(o, {n!r}, {w[0]}), o.{n} == {w[0]}, p.{n} == {v[0]}))({make}, {make}), ret=(None, True, True))\n'
        # methods, called on this class and on one that inherits
        groups = {}
        for m in c.methods:
            if m.access == 'public' and not m.deleted: groups.setdefault(m.name, []).append(m)
        s += f'_o = {make}\n'
        s += f'obj_{c.name} = _o\n'
        o = f'obj_{c.name}'
        for name, ms in groups.items():
            s += self.group_checks(ms, f'{q}.{name}', who + '::' + name)
            for m in ms:
                if m.pure: s += f'T("C07", {f"{who} {m.id} pure without override"!r}, lambda: {o}.{m.name}({", ".join(p[0].val(r)[0] for p in m.params)}), exc="RuntimeError")\n'
                else: s += self.fn_driver(m, f'{q}.{m.name}' if m.static else f'{o}.{m.name}', who)
        for b in c.allbases():
            s += f'T("C08", {who + " is a " + b.cppname!r}, lambda: (issubclass({q}, {self.pyq(b)}), {o}.t_{b.name} == {o}.t_{b.name}), ret=(True, True))\n'
            for m in b.methods:
                if m.access == 'public' and not m.deleted and not m.static and not m.virtual and not m.pure and not self.hides(c, b, m.name) and m.params is not None:
                    args = [p[0].val(r) for p in m.params]
                    s += self.call_line('C08', f'{who} inherited {m.id}', f'{o}.{m.name}', m, args, ', '.join(a[0] for a in args))
        if 'virtual' in self.feats and not c.outer: s += self.override_driver(c, q, make)
        return s

    def nonpriv(self, c):
        r = []
        for b in c.bases:
            if c.base_access.get(b, 'public') != 'private':
                r.append(b)
                r += self.nonpriv(b)
        return r

    def nspath(self, c):
        o = c
        while o.outer: o = o.outer
        return o.path

    def hides(self, c, b, name):
        """a class between c and b (or c, or a sibling searched earlier) declares name"""
        for x in [c] + c.allbases():
            if x is not b and any(m.name == name for m in x.methods): return True
        return False

    def override_driver(self, c, q, make):
        r, s = self.r, ''
        vs = self.virtuals(c)
        if not vs: return ''
        path = self.pyns(c.path)
        # C++ calls on a plain object reach the C++ implementation
        for m in vs:
            nm = f'call_{c.name}_{m.name}'
            if m.pure: s += f'T("C07", {f"{c.cppname} C++ call of pure {m.name}"!r}, lambda: {path}.{nm}({", ".join([make] + [p[0].val(r)[0] for p in m.params])}), exc="RuntimeError")\n' if not m.noexcept else ''
            else:
                args = [p[0].val(r) for p in m.params]
                s += self.call_line('C07', f'{c.cppname} C++ call of {m.name}', f'{path}.{nm}', m, args, ', '.join([make] + [a[0] for a in args]))
        if c.final: return s
        # a python subclass overriding a subset
        for rnd in range(2):
            chosen = [m for m in vs if not m.final and (rnd == 0 or r.random() < .5)]
            k = f'D{rnd}_{c.name}'
            body = ''
            for m in chosen:
                vals = {'void': 'None', 'int': str(-self.n()), 'str': repr(f'py{self.n()}'), 'dbl': repr(self.n() + .25), 'bool': 'True'}
                m_ret = vals[m.ret[0]]
                m.pyret = m_ret
                body += f'    def {m.name}(self, *a):\n        pylog.append(({m.name!r}, type(self).__name__, norm_args(a)))\n        return {m_ret}\n'
            s += f'class {k}({q}):\n    def __init__(self): {q}.__init__(self, 555)\n{body}'
            if rnd == 1: s += f'class {k}x({k}): pass\n'; k += 'x'
            s += f'obj_{k} = {k}()\n'
            for m in vs:
                nm = f'call_{c.name}_{m.name}'
                args = [p[0].val(r) for p in m.params]
                al = ', '.join([f'obj_{k}'] + [a[0] for a in args])
                if m in chosen:
                    exp = [(m.name, k, self.normed(m, args))]
                    s += f'T("C07", {f"{c.cppname} python override of {m.name} seen by C++ ({k})"!r}, lambda: (pylog.clear(), {path}.{nm}({al}), list(pylog))[1:], ret=({m.pyret}, [({m.name!r}, {k!r}, {self.normed(m, args)})]), ev=[])\n'
                elif m.pure: s += '' if m.noexcept else f'T("C07", {f"{c.cppname} missing override of pure {m.name} ({k})"!r}, lambda: {path}.{nm}({al}), exc="RuntimeError")\n'
                else: s += self.call_line('C07', f'{c.cppname} fallback of {m.name} ({k})', f'{path}.{nm}', m, args, al)
            for b in c.allbases():
                for m in vs:
                    if m in chosen and any(x.name == m.name for x in self.virtuals(b)):
                        args = [p[0].val(r) for p in m.params]
                        s += f'T("C07", {f"{c.cppname} python override of {m.name} seen through {b.name} ({k})"!r}, lambda: {self.pyns(b.path)}.call_{b.name}_{m.name}({", ".join([f"obj_{k}"] + [a[0] for a in args])}), ret={m.pyret}, ev=[])\n'
        return s

    def normed(self, m, args):
        return '[' + ', '.join(f'("obj", {a[1]})' if p[0].cls else f'("enum", type({a[0]}).__name__, int({a[0]}))' if p[0].enum else a[0] for p, a in zip(m.params, args)) + ']'


PRELUDE = '''
import re
pylog = []
def norm_args(a):
    r = []
    for x in a:
        t = [n for n in dir(x) if n.startswith('t_K')] if type(x).__module__.startswith(ROOT) and not hasattr(type(x), '__members__') else []
        if hasattr(type(x), '__members__'): r.append(('enum', type(x).__name__, int(x)))
        elif t: r.append(('obj', getattr(x, 't_' + type(x).__name__)))
        else: r.append(x)
    return r
def overloads(f):
    d = f.__doc__ or ''
    if 'Overloaded function.' in d.split('\\n\\n')[0] + d[:400]: return len(re.findall(r'^\\d+\\. %s\\(' % re.escape(f.__name__), d, re.M))
    return 1
'''
