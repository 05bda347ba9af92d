"""C21: nothing inaccessible or unsupported is bound, and its presence changes nothing else."""
import json, random, re
from ..core import Check
from ..scen import DPRE, scen, files_of, seeds, nworlds
from .c02 import SURF

SURF21 = SURF + r'''
def everything(root):
    """every name and every text that can be reached from the module"""
    out, seen = [], set()
    def go(o, p):
        if id(o) in seen: return
        seen.add(id(o))
        for x in [o] + list(getattr(o, '__bases__', ())): out.append((p, getattr(x, '__name__', '') + ' ' + (x.__doc__ if isinstance(x.__doc__, str) else '')))
        for k, v in sorted(vars(o).items()) if isinstance(o, (type, _ty.ModuleType)) else []:
            if k in ('__builtins__', '__loader__', '__spec__', '__file__'): continue
            out.append((p + '.' + k, k))
            if isinstance(v, (type, _ty.ModuleType)): go(v, p + '.' + k)
            else:
                w = getattr(o, k, v)
                out.append((p + '.' + k, str(getattr(w, '__doc__', '') or '') + str(getattr(v, '__doc__', '') or '')))
    go(root, 'mod')
    return out
_ev = everything(M)
t('no inaccessible name in %d names and texts' % len(_ev), lambda: sorted({p + ': ' + x[max(0, x.find('HID') - 60):x.find('HID') + 40] for p, x in _ev if 'HID' in x})[:6], ret=[])
def dunders(root):
    out, seen = {}, set()
    def go(o, p):
        if id(o) in seen: return
        seen.add(id(o))
        for k, v in vars(o).items():
            if isinstance(v, (type, _ty.ModuleType)) and not k.startswith('__'): go(v, p + '.' + k)
        out[p] = sorted(k for k in vars(o) if isinstance(o, type) and k != 'assign') if not hasattr(o, '__members__') else 0
    go(root, '')
    return out
with open(JOURNAL + '.dunders', 'w') as _f: json.dump(dunders(M), _f)
'''

# a decoy is text between \1 and \2: the twin project does not have it. Names of decoys contain HID.
D = lambda s: '\1 ' + s + ' \2'


def full(s): return s.replace('\1', '').replace('\2', '')
def twin(s): return re.sub('\1[^\1\2]*\2', '', s)


TYPES = [('int', '3'), ('double', '1.5'), ('const std::string &', "'s'"), ('bool', 'True'), ('base::T const &', 'M.base.T()'), ('base::E', 'M.base.E.e1'), ('base::T *', 'M.base.T()'), ('std::shared_ptr<base::T>', 'M.base.T()'), ('const char *', "'c'"), ('unsigned char', '7')]

# signatures around the inaccessible type X: {parameter list of a function}, {result}
BADP = ['{X}', '{X} const &', '{X} &', '{X} *', '{X} const *', 'std::shared_ptr<{X}>', 'std::shared_ptr<const {X}> const &', 'std::vector<{X}> const &', 'std::vector<std::shared_ptr<{X}>>', 'std::pair<int, {X}>', 'base::Box<{X}>', 'base::Box<base::Box<{X}> > &', 'std::map<std::string, {X}> const &', 'base::Box<{X} *> *', 'base::Box<{X} const &> const &', 'base::Two<{X}, int>', 'base::Two<int, {X}> const &', 'base::Pack<int, {X}, double>', 'base::Fn<void({X})> const &', 'base::Fn<{X}(int)>']
UNSUP = ['int (*{n})(int)', 'void (*{n})()', 'int (&{n})[3]', 'int {n}[3]', 'int **{n}', 'char const **{n}', 'base::T **{n}', 'base::T &&{n}', 'std::string &&{n}', 'int base::T::*{n}', 'int (base::T::*{n})(int)', 'std::pair<int, int> &{n}', 'std::pair<int, int> *{n}', 'std::tuple<int, int> &{n}', 'base::HIDInc *{n}', 'base::HIDInc &{n}', 'base::HIDInc const *{n}', 'base::T (*{n})[2]', 'base::T *{n}[2]']

BASE = '''#include <vector>
#include <map>
#include <tuple>
namespace base { struct T { int v = 1; int m(int p0) { return p0; } }; enum class E { e0, e1 }; class HIDInc; template <int N> class HIDNum; template <typename A> struct Box { int v = 1; }; template <typename A, typename B> struct Two { int v = 1; }; template <typename... A> struct Pack { int v = 1; }; template <typename F> struct Fn { int v = 1; };
template <typename A> struct Bound { A a{}; int m() const { return 4; } }; }
'''


class Gen:
    def __init__(self, seed, n, dens):
        self.r, self.k, self.calls, self.decoys, self.dens = random.Random(f'c21-{seed}'), 0, [], 0, dens
        self.out, self.nsfn = [], {}
        for _ in range(n):
            p = self.r.choice([[], ['a'], ['a', 'b'], ['c']])
            b = self.nsdecoys(p) + self.r.choice([self.fn, self.fn, self.cls, self.cls, self.enum, self.tmpl])(p) + self.nsdecoys(p)
            self.out.append(' '.join(f'namespace {x} {{' for x in p) + '\n' + b + '\n' + '}' * len(p) + '\n')

    def u(self):
        self.k += 1
        return self.k

    def params(self, n=None):
        ps = [self.r.choice(TYPES) for _ in range(self.r.choice([0, 1, 1, 2, 3]) if n is None else n)]
        return ', '.join(f'{t} p{i}' for i, (t, _) in enumerate(ps)), ', '.join(v for _, v in ps)

    def fn(self, p):
        k = self.u()
        c, a = self.params()
        path = '.'.join(['M'] + p)
        self.calls.append((f'{path}.f{k}({a})', k))
        self.nsfn.setdefault(tuple(p), []).append(f'f{k}')
        pre, post = '', ''
        if self.r.random() < .4: pre = D(f'inline int f{k}(HIDsel_{k} &) = delete;') if False else D(f'struct HIDf{k}; int f{k}(HIDf{k} &, int) = delete;')
        return pre + f'inline int f{k}({c}) {{ return {k}; }}' + post

    def enum(self, p):
        k = self.u()
        path = '.'.join(['M'] + p)
        self.calls.append((f'int({path}.E{k}.y{k})', k + 3))
        return f'enum class E{k} {{ x{k}, y{k} = {k + 3} }};'

    def tmpl(self, p):
        k = self.u()
        path = '.'.join(['M'] + p)
        A, py = self.r.choice([('int', 'int'), ('double', 'double'), ('bool', 'bool')])
        n = f'Tm{k}_{py}_t'
        self.calls += [(f'{path}.{n}().get(4)', k), (f'{path}.use{k}({path}.{n}()).get(1)', k)]
        d = lambda: ''.join(self.member_decoy(f'Tm{k}', []) for _ in range(self.cnt()))
        return f'template <typename A> class Tm{k} {{ {d()} public: Tm{k}() {{}} A v{{}}; {d()} int get(int) const {{ return {k}; }} {d()} }}; ' + D(f'template <typename A> class Tm{k}<A *> {{ public: int HIDp{k}() {{ return 1; }} }};') + f' inline Tm{k}<{A}> use{k}(Tm{k}<{A}> const &p0) {{ return p0; }}'

    def cnt(self): return self.r.choice([0, 1, 1, 2]) if self.r.random() < self.dens else 0

    def nsdecoys(self, p): return ''.join(self.ns_decoy(p) for _ in range(self.cnt()))

    def badparam(self, X): return self.r.choice(BADP).format(X=X)

    def ns_decoy(self, p):
        r, k = self.r, self.u()
        self.decoys += 1
        c, _ = self.params()
        bp = self.badparam(f'HIDX{k}')
        un = r.choice(UNSUP).format(n='p0')
        name = r.choice(self.nsfn[tuple(p)]) if self.nsfn.get(tuple(p)) and r.random() < .4 else f'HIDf{k}'
        sig = r.choice([bp + ' p0', 'int q, ' + bp + ' p0', bp + ' p0, int q', 'base::T &q, ' + bp + ' p0, int q2 = 4'])
        l = [f'namespace {{ int HIDf{k}({c}) {{ return 1; }} struct HIDS{k} {{ int v; int m(int) {{ return 1; }} }}; enum HIDE{k} {{ HIDe{k} }}; enum class HIDEc{k} {{ HIDc{k} }}; int HIDv{k} = 1; template <typename A> int HIDt{k}(A) {{ return 1; }} }}',
             f'namespace {{ struct HIDX{k} {{ int v; }}; }} inline int HIDf{k}({sig}) {{ return 1; }}',
             f'namespace {{ enum HIDX{k} {{ HIDe{k} }}; }} inline int HIDf{k}({sig}) {{ return 1; }}',
             f'namespace {{ namespace HIDn{k} {{ int HIDf{k}({c}) {{ return 1; }} struct HIDS{k} {{ int v; }}; }} }}',
             f'namespace {{ struct HIDX{k} {{ struct HIDY {{ int v; }}; enum HIDZ {{ HIDz }}; static int HIDs(int) {{ return 1; }} }}; }} inline HIDX{k}::HIDY HIDf{k}(int) {{ return {{}}; }} inline HIDX{k} *HIDg{k}(HIDX{k}::HIDZ) {{ return nullptr; }}',
             f'int HIDf{k}({c}) = delete;', f'inline void {name}({"base::T &z, " if un.find("=") < 0 else ""}{un}, base::HIDInc *z1, base::HIDNum<{k}> *z2) {{}}',
             f'template <typename A> int HIDt{k}(A a, {c or "int"}) {{ return 1; }}', f'template <typename A, int N> struct HIDT{k} {{ A v; int m(A a) {{ return N; }} static int s() {{ return 1; }} struct In {{ A w; }}; enum En {{ e{k} }}; }};',
             f'class HIDfwd{k}; struct HIDfwdb{k};', f'inline HIDfwd{k}; ' if False else f'class HIDfwd{k}; inline int HIDf{k}(HIDfwd{k} *p0, HIDfwd{k} const &p1) {{ return 1; }} inline HIDfwd{k} *HIDg{k}() {{ return nullptr; }}',
             f'extern int HIDv{k}; static int HIDw{k} = 1; const double HIDx{k} = 2; static const char *const HIDs{k} = "x";', f'struct {{ int z; }} HIDu{k};', f'static auto HIDl{k} = [](int a) {{ return a; }};', f'typedef int HIDtd{k}; using HIDus{k} = base::T; template <typename A> using HIDta{k} = base::Box<A>;',
             f'struct HIDo{k}; base::T operator+(HIDo{k} const &, int); bool operator==(HIDo{k} const &, HIDo{k} const &);', f'inline int HIDf{k}({un}) {{ return 1; }}',
             f'inline base::T &&HIDf{k}(base::T &p0) {{ return static_cast<base::T &&>(p0); }} inline int **HIDg{k}() {{ return nullptr; }} typedef int (*HIDfp{k})(int); inline HIDfp{k} HIDh{k}() {{ return nullptr; }} inline int base::T::*HIDi{k}() {{ return nullptr; }}',
             f'typedef base::T *HIDtp{k}; using HIDta{k} = base::T[2]; typedef int (*HIDtf{k})(int); typedef HIDtp{k} HIDtq{k}; inline HIDtp{k} *HIDf{k}() {{ return nullptr; }} inline HIDtq{k} const *HIDr{k}() {{ return nullptr; }} inline int HIDg{k}(HIDtq{k} *p0) {{ return 1; }} inline int HIDi{k}(HIDta{k} p1, int q) {{ return 1; }} inline HIDta{k} *HIDh{k}() {{ return nullptr; }} inline HIDtf{k} HIDj{k}(int) {{ return nullptr; }} inline int HIDo{k}(HIDtf{k} p0) {{ return 1; }}',
             f'static_assert(true, "HID"); using base::T; namespace HIDal{k} = ::base;']
        return D(r.choice(l)) + '\n'

    def member_decoy(self, cn, pub):
        """a decoy in a class; the access is public before and after"""
        r, k = self.r, self.u()
        self.decoys += 1
        acc = r.choice(['private', 'protected'])
        c, _ = self.params()
        st = r.choice(['', 'static '])
        name = r.choice(pub) if pub and r.random() < .5 else f'HIDm{k}'
        over = f'{name}({f"base::HIDNum<{k}> const &, int" if name[0] != "H" else c})'
        kind = r.choice(['struct', 'class', 'union', 'enum', 'enum class'])
        body = '{ HIDz, HIDz2 }' if 'enum' in kind else '{ public: int v; }'
        if kind == 'enum': body = f'{{ HIDz{k} }}'
        bp = self.badparam(f'HIDX{k}')
        un = r.choice(UNSUP).format(n='p0')
        sig = r.choice([bp + ' p0', 'int q, ' + bp + ' p0', bp + ' p0, int q = 3'])
        nm = name if r.random() < .3 else f'HIDg{k}'
        l = [f'{acc}: {st}int {over} {{ return 1; }}', f'{acc}: int HIDv{k} = 1; static const int HIDs{k} = 1; mutable double HIDd{k} = 1;', f'{acc}: {kind} HIDX{k} {body};', f'{acc}: {kind} HIDX{k} {body}; public: int {nm}({sig}, int z5 = 1) {{ return 1; }}'.replace(', int q = 3, int z5', ', int q = 3, int z5') if nm[0] == 'H' else f'{acc}: {kind} HIDX{k} {body}; public: int {nm}({sig.replace("= 3", "")}, int z5, base::HIDNum<{k}> *z6) {{ return 1; }}',
             f'{acc}: {kind} HIDX{k} {body}; public: HIDX{k} HIDr{k}() {{ return HIDX{k}(); }} std::shared_ptr<HIDX{k}> HIDq{k}() const {{ return nullptr; }} static HIDX{k} *HIDp{k}(int) {{ return nullptr; }} std::vector<HIDX{k}> HIDo{k}() {{ return {{}}; }}',
             f'{acc}: {kind} HIDX{k} {body}; public: typedef HIDX{k} HIDal{k}; HIDal{k} HIDr{k}() {{ return HIDal{k}(); }} int HIDt{k}(HIDal{k} const &, int = 1) {{ return 1; }}',
             f'{acc}: {kind} HIDX{k} {body}; public: HIDX{k} HIDfield{k}{{}}; std::shared_ptr<HIDX{k}> HIDfield2{k}; base::Box<HIDX{k}> HIDfield3{k};',
             f'{acc}: struct HIDX{k} {{ struct HIDY {{ int v; enum HIDZ {{ HIDz }}; }}; static HIDY HIDmk() {{ return {{}}; }} }}; public: HIDX{k}::HIDY HIDr{k}() {{ return {{}}; }} int HIDt{k}(HIDX{k}::HIDY const &, int) {{ return 1; }} int HIDu{k}(HIDX{k}::HIDY::HIDZ) {{ return 1; }} base::Box<HIDX{k}::HIDY> HIDw{k}() {{ return {{}}; }}',
             f'{acc}: template <typename HA> struct HIDX{k} {{ HA v; }}; public: int HIDt{k}(HIDX{k}<int> const &) {{ return 1; }} HIDX{k}<double> *HIDr{k}() {{ return nullptr; }} HIDX{k}<float> HIDw{k}() {{ return {{}}; }}',
             f'public: {st}int {over} = delete;', f'public: int {nm}({un}, base::HIDNum<{k}> *z) {{ return 1; }}', f'public: template <typename HA> int HIDt{k}(HA a) {{ return 1; }} template <typename HA> struct HIDT{k} {{ HA v; }};',
             f'public: int HIDb{k} : 3; int *HIDp{k} = nullptr; int HIDa{k}[3]; base::T *HIDo{k} = nullptr; base::T HIDb2{k}[2]; int (*HIDf{k})(int) = nullptr; int base::T::*HIDmp{k} = nullptr; ',
             f'public: typedef base::T *HIDtp{k}; typedef HIDtp{k} HIDtq{k}; typedef base::T HIDta{k}[2]; typedef int (*HIDtf{k})(int); typedef int base::T::*HIDtm{k}; HIDtp{k} HIDfa{k} = nullptr; HIDtq{k} HIDfe{k} = nullptr; HIDta{k} HIDfb{k}; HIDtf{k} HIDfc{k} = nullptr; HIDtm{k} HIDfd{k} = nullptr; HIDtp{k} *HIDfg{k}() {{ return nullptr; }} HIDtf{k} HIDfh{k}() const {{ return nullptr; }}',
             f'friend class HIDfr{k}; friend int HIDff{k}(base::T const &, int, base::HIDNum<{k}>);', f'public: class HIDfwd{k}; int HIDt{k}(HIDfwd{k} *) {{ return 1; }} HIDfwd{k} *HIDr{k}() {{ return nullptr; }} std::shared_ptr<HIDfwd{k}> HIDq{k};' if False else f'public: class HIDfwd{k}; int HIDt{k}(HIDfwd{k} *) {{ return 1; }} HIDfwd{k} const *HIDr{k}() const {{ return nullptr; }}',
             f'{acc}: {cn}(base::T const &, base::HIDNum<{k}> &) {{}}' if acc == 'private' else f'public: {cn}(base::HIDNum<{k}>, int) = delete;', f'protected: {cn}(base::T const &, base::HIDNum<{k}> *, int) {{}}', f'{acc}: virtual int HIDvi{k}(int p0) {{ return p0; }} virtual void HIDvj{k}(base::T const &) const {{}}',
             f'{acc}: explicit {cn}(base::HIDNum<{k}> *) {{}}' if acc == 'private' else f'public: {cn}(int (*)(base::HIDNum<{k}>)) {{}}', f'{acc}: int operator()(int, base::HIDNum<{k}> const &) {{ return 1; }} int operator+(base::HIDNum<{k}> const &) const {{ return 1; }} int operator[](base::HIDNum<{k}> const &) const {{ return 1; }} bool operator==(base::HIDNum<{k}> const &) const {{ return true; }} void operator+=(base::HIDNum<{k}> const &) {{}}',
             f'public: operator base::HIDNum<{k}>() const;', f'public: explicit operator base::HIDNum<{k}> *() const;', f'public: static int HIDsv{k}; static base::T HIDso{k}; static const int HIDsc{k} = 3; static constexpr int HIDse{k} = 4;', f'public: typedef int HIDty{k}; using HIDus{k} = base::T;', f'{acc}: typedef int HIDty{k}; static const int HIDk{k} = 3; public:']
        if cn.startswith('Tm'): l = [x for x in l if '::HID' not in x.replace('base::HID', '')]
        t = r.choice(l)
        return D(t + ' public:') + ' '

    def cls(self, p):
        k, r = self.u(), self.r
        n = f'C{k}'
        path = '.'.join(['M'] + p + [n])
        d = lambda pub=(): ''.join(self.member_decoy(n, list(pub)) for _ in range(self.cnt()))
        parts, pub = [f'{n}() {{}}'], []
        par = ''
        if r.random() < .3: parts.append(f'{n}(int p0, base::T const &p1) {{ v = p0; }}'); self.calls.append((f'{path}(7, M.base.T()).v', 7))
        parts.append('int v = 1;')
        for i in range(r.randint(1, 4)):
            j = self.u()
            c, a = self.params()
            st, co = r.random() < .25, r.choice(['', ' const'])
            pub.append(f'm{j}')
            parts.append(f'{"static " if st else ""}int m{j}({c}){"" if st else co} {{ return {j}; }}')
            self.calls.append((f'{path}{"" if st else "()"}.m{j}({a})', j))
        if r.random() < .4:
            j = self.u()
            parts.append(f'enum class In{j} {{ i0, i1 = {j} }}; int en{j}(In{j} p0) {{ return int(p0); }}')
            self.calls.append((f'{path}().en{j}({path}.In{j}.i1)', j))
        if r.random() < .4:
            j = self.u()
            dd = ''.join(self.member_decoy(f'Ne{j}', []) for _ in range(self.cnt()))
            parts.append(f'struct Ne{j} {{ Ne{j}() {{}} int w = {j}; {dd} int g() {{ return w; }} }}; Ne{j} mk{j}() {{ return Ne{j}(); }}')
            self.calls += [(f'{path}.Ne{j}().g()', j), (f'{path}().mk{j}().w', j)]
        if r.random() < .3: parts.append(f'int operator+(int p0) const {{ return p0 + {k}; }} int operator[](int p0) const {{ return p0; }}'); self.calls += [(f'{path}() + 2', 2 + k), (f'{path}()[6]', 6)]
        if r.random() < .25: parts.append(f'virtual int vi{k}(int p0) {{ return {k}; }} virtual ~{n}() {{}}'); self.calls.append((f'{path}().vi{k}(1)', k))
        r.shuffle(parts)
        kw = r.choice(['struct', 'class'])
        base = ''
        if r.random() < .35: base = D(r.choice([': private base::HIDPr', ': protected base::HIDPr', ': private virtual base::HIDPr', ': private base::Sec', ': protected base::Sec', ': protected virtual base::Sec', ': private base::Sec, private base::HIDPr']))
        if 'base::Sec' in base: parts.insert(r.randrange(len(parts)), D(r.choice(['private', 'protected']) + ': ' + r.choice(['using base::Sec::secm; public:', 'using base::Sec::secm; using base::Sec::secf; public:', 'using base::Sec::secv; using base::Sec::SecIn; public:'])))
        if base: self.decoys += 1
        elif r.random() < .3:
            base = ' : public base::Pub' + (D(', private base::HIDPr') if r.random() < .5 else '')
            self.calls += [(f'{path}().pub(3)', 3), (f'{path}().pv', 5), (f'M.base.takes({path}())', 5)]
        body = ''
        for q in parts: body += d(pub) + ' ' + q + ' '
        body += d(pub)
        txt = f'{kw} {n}{base} {{ public: {body} }};'
        j = self.u()
        txt += ' ' + f'inline int fc{j}({n} const &p0, {n} *p1) {{ return {j}; }}'
        self.calls.append(('.'.join(['M'] + p + [f'fc{j}']) + f'({path}(), {path}())', j))
        return txt

    def files(self, f):
        hs = {'base.hpp': BASE + 'namespace base { struct Sec { int secf = 1; int secm(int p0) { return p0; } virtual int secv(int p0) { return p0; } enum SecIn { s0 }; virtual ~Sec() {} }; struct Pub { int pv = 5; int pub(int p0) { return p0; } }; inline int takes(Pub const &p0) { return p0.pv; } ' + D('struct HIDPr0;') + ' }\n' + HIDPR, 'a.hpp': '#include <base.hpp>\n' + ''.join(self.out[0::2]), 'b.hpp': '#include <a.hpp>\n' + ''.join(self.out[1::2])}
        hs = {k: f(v) for k, v in hs.items()}
        return files_of(hs)

    def driver(self):
        return ''.join(f't({c!r}, lambda: {c}, ret={v!r})\n' for c, v in self.calls)


# the base class of the decoys is in an unnamed namespace of its own: it is never bound
HIDPR = 'namespace base { namespace { struct HIDPr { int HIDpv = 1; int HIDpm(int p0) { return p0; } virtual int HIDvirt(int) { return 1; } static int HIDps() { return 1; } enum HIDpe { HIDp0 }; struct HIDpn { int v; }; }; } }\n'


def mixed(seed, n, dens):
    def run(ctx):
        g = Gen(seed, n, dens)
        got = []
        for k, f in (('full', full), ('twin', twin)):
            wd, sub = ctx.wd, ctx.wd / k
            sub.mkdir(exist_ok=True)
            ctx.wd = sub
            try:
                if not ctx.project(g.files(f), DPRE + SURF21 + g.driver(), bind=['']): return
                got.append([json.load(open(sub / ('driver.journal.' + x))) for x in ('surface', 'dunders')])
            finally: ctx.wd = wd
        # implicit copy operations are bound when the compiler happened to declare them: not compared
        nocopy = lambda v: re.sub(r'; \(self: (\S+), arg0: \1\) -> None', '', v) if isinstance(v, str) else v
        for a, b, what in zip(got[0], got[1], ('surface', 'members')):
            for q in sorted(set(a) | set(b)): ctx.ok(nocopy(a.get(q)) == nocopy(b.get(q)), f'{what} {q}', lambda: f'with inaccessible declarations around: {a.get(q)!r}, without: {b.get(q)!r}')
        ctx.stat('decoys', g.decoys)
        ctx.stat('names_compared', len(got[0][0]))
    return f'mixed-{seed}', run


CASES = [
    scen('special-members', '''
        namespace s {
        class NoCopy { NoCopy(NoCopy const &); NoCopy &operator=(NoCopy const &); public: NoCopy() {} int v = 1; };
        class DelCopy { public: DelCopy() {} DelCopy(DelCopy const &) = delete; DelCopy &operator=(DelCopy const &) = delete; int v = 2; };
        class ProtCopy { protected: ProtCopy(ProtCopy const &) {} ProtCopy &operator=(ProtCopy const &) { return *this; } public: ProtCopy() {} int v = 3; };
        class NoDef { NoDef() {} public: explicit NoDef(int p0) : v(p0) {} int v; };
        class DelDef { public: DelDef() = delete; explicit DelDef(int p0) : v(p0) {} int v; };
        class ProtDef { protected: ProtDef() {} public: explicit ProtDef(int p0) : v(p0) {} int v; };
        class NoAssign { NoAssign &operator=(NoAssign const &); public: NoAssign() {} NoAssign(NoAssign const &p0) : v(p0.v) {} int v = 4; };
        class MoveOnly { public: MoveOnly() {} MoveOnly(MoveOnly &&) {} MoveOnly &operator=(MoveOnly &&) { return *this; } int v = 5; };
        struct HasNoCopy { HasNoCopy() {} NoCopy in; int w = 6; }; struct DerNoCopy : NoCopy { DerNoCopy() {} int w = 7; };
        class AllHidden { AllHidden() {} AllHidden(AllHidden const &) {} public: int v = 8; static AllHidden &one() { static AllHidden x; return x; } };
        class NoDtor { NoDtor() {} NoDtor(NoDtor const &); ~NoDtor() {} public: int v = 9; static NoDtor *one() { static NoDtor *x = new NoDtor(); return x; } };
        class PrivConv { operator int() const { return 1; } public: PrivConv() {} explicit operator bool() const = delete; int v = 10; };
        class PrivIt { int *begin(); int *end(); public: PrivIt() {} int v = 11; };
        }''', '''
N = M.s
for c, v in (('NoCopy', 1), ('DelCopy', 2), ('ProtCopy', 3), ('MoveOnly', 5)):
    t(c + ' cannot be copied', lambda: getattr(N, c)(getattr(N, c)()), exc='TypeError')
    t(c + ' cannot be assigned', lambda: hasattr(getattr(N, c), 'assign'), ret=False)
    t(c + ' is there', lambda: getattr(N, c)().v, ret=v)
for c in ('HasNoCopy', 'DerNoCopy'):
    t(c + ' cannot be copied', lambda: getattr(N, c)(getattr(N, c)()), exc='TypeError')
    t(c + ' is there', lambda: getattr(N, c)().w, ret=6 if c[0] == 'H' else 7)
for c in ('NoDef', 'DelDef', 'ProtDef'):
    t(c + ' has no default constructor', lambda: getattr(N, c)(), exc='TypeError')
    t(c + ' is there', lambda: getattr(N, c)(5).v, ret=5)
t('NoAssign cannot be assigned', lambda: hasattr(N.NoAssign, 'assign'), ret=False)
t('NoAssign can be copied', lambda: N.NoAssign(setall(N.NoAssign(), v=44)).v, ret=44)
t('AllHidden cannot be constructed', lambda: N.AllHidden(), exc='TypeError')
t('NoDtor', lambda: N.NoDtor.one().v, ret=9)
t('NoDtor twice', lambda: [N.NoDtor.one().v for _ in range(3)], ret=[9, 9, 9])
t('PrivConv', lambda: names(N.PrivConv), ret=['v'])
t('PrivIt', lambda: names(N.PrivIt), ret=['v'])
t('PrivIt is not iterable', lambda: list(N.PrivIt()), exc='TypeError')
'''),
    scen('access-sections', '''
        namespace s {
        class A { int HIDa; int HIDf() { return 1; } public: int b = 1; int g() { return 2; } protected: int HIDc; int HIDh() { return 1; } public: int d = 3; private: int HIDe; static int HIDs() { return 1; } struct HIDN { int x; }; enum HIDE { HIDe0 }; };
        struct B { int a = 4; private: int HIDb; int HIDf(); protected: int HIDc; virtual int HIDg() { return 1; } public: int z() { return 5; } };
        class C : B { public: int own() { return 6; } };
        class D : protected A { public: using A::g; int own() { return b + 7; } protected: using A::HIDh; private: using A::d; };
        class E : public B { protected: int z() { return 1; } public: int own() { return 8; } };
        union U { private: int HIDi; public: double d; int n; };
        struct F { union { int u1; double u2; }; private: union { int HIDu3; double HIDu4; }; public: struct { int s1; }; protected: struct { int HIDs2; }; public: int last = 9; };
        inline int takes(B const &p0) { return p0.a; } inline int takesA(A const &p0) { return p0.b; }
        }''', SURF21 + '''
N = M.s
t('A', lambda: names(N.A), ret=['b', 'd', 'g'])
t('B', lambda: names(N.B), ret=['a', 'z'])
t('C', lambda: names(N.C), ret=['own'])
t('C hides its base', lambda: (issubclass(N.C, N.B), hasattr(N.C, 'a'), hasattr(N.C, 'z')), ret=(False, False, False))
t('C does not convert', lambda: N.takes(N.C()), exc='TypeError')
t('C works', lambda: N.C().own(), ret=6)
t('D hides its base', lambda: (issubclass(N.D, N.A), hasattr(N.D, 'd'), N.D().g(), N.D().own()), ret=(False, False, 2, 8))
t('D does not convert', lambda: N.takesA(N.D()), exc='TypeError')
t('E', lambda: (N.E.__bases__[0] is N.B, names(N.E), N.E().own(), N.takes(N.E())), ret=(True, ['own'], 8, 4))
t('U', lambda: names(N.U), ret=['d', 'n'])
t('F', lambda: (names(N.F), N.F().last), ret=(['last', 's1', 'u1', 'u2'], 9))
'''),
]


def cases(check, rng, tier):
    return CASES + [mixed(s, 8 + i % 3 * 4, .3 + i % 4 * .2) for i, s in enumerate(seeds(rng, nworlds(tier, 30, 300)))]


CHECK = Check('C21', 'exploration', 'differential monitor: surface, texts and behaviour of the module of a project with inaccessible and unsupported declarations in every position against its twin without them',
              'one observation per name, text scan, member list or call compared; non-trivial = distinct (case, name or call)', cases,
              assumptions=['names of inaccessible declarations are marked'])
