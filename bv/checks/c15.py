"""C15: return value policies, call guards, holders, module-local registration, name prefixes, buffer protocol, smart holders."""
import random
from ..core import Check
from ..scen import PRE, DPRE, scen, seeds, nworlds

POLICIES = ['automatic', 'automatic_reference', 'take_ownership', 'copy', 'move', 'reference', 'reference_internal']
KINDS = [(w, c) for w in ('static', 'member') for c in ('pointer', 'lvalue_reference', 'rvalue_reference')]
RETS = [('Probe', None), ('Probe const', None), ('Probe *', 'pointer'), ('Probe const *', 'pointer'), ('PP', 'pointer'), ('PPP', 'pointer'), ('Probe &', 'lvalue_reference'), ('Probe const &', 'lvalue_reference'), ('PR', 'lvalue_reference'), ('Ref<Probe>', 'lvalue_reference')]  # rvalue references are not bindable

PROBE = '''
namespace pp { struct Probe { int v = 0; Probe() {} Probe(int a) : v(a) {} };
typedef Probe *PP; typedef PP PPP; typedef Probe &PR; typedef Probe &&PV; template <typename T> using Ref = T &;
inline Probe &the(int v) { static Probe p; p.v = v; return p; } }
'''
# a caster that records the policy it is given: what the function was bound with
CASTER = '''#pragma once
#include <pybind11/pybind11.h>
#include <probe.hpp>
namespace pybind11 { namespace detail { template <> struct type_caster<pp::Probe> {
static constexpr auto name = const_name("Probe"); pp::Probe value;
bool load(handle h, bool) { value.v = (int)PyLong_AsLong(h.ptr()); if( PyErr_Occurred() ) { PyErr_Clear(); return false; } return true; }
template <typename T> using cast_op_type = movable_cast_op_type<T>;
operator pp::Probe *() { return &value; } operator pp::Probe &() { return value; } operator pp::Probe &&() && { return std::move(value); }
static handle cast(pp::Probe const &p, return_value_policy pol, handle) { vt::ev("cast", (int)pol); return PyLong_FromLong(p.v); }
static handle cast(pp::Probe const *p, return_value_policy pol, handle) { vt::ev("cast", (int)pol); return PyLong_FromLong(p->v); } }; } }
'''
GUARD = '''#pragma once
#include <vt/vt.hpp>
namespace gg { struct Guard { Guard() { vt::ev("enter"); } ~Guard() { vt::ev("leave"); } }; }
'''


class Gen:
    """functions of every kind, each returning the probe in one of the ways; remembers what every call has to do"""

    def __init__(self, r):
        self.r, self.n, self.obs = r, 0, []

    def rt(self): return self.r.choice(RETS)

    def body(self, rt, i, args='vt::join()'):
        e = 'the(%d)' % i
        if rt in ('Probe *', 'Probe const *', 'PP', 'PPP'): e = '&' + e
        elif rt in ('Probe &&', 'PV'): e = f'static_cast<Probe &&>({e})'
        return f'{{ vt::ev("f{i}"{args}); return {e}; }}'

    def fn(self, where, name, pre='', post='', call='{}', default=None, trail=None):
        self.n += 1
        i = self.n
        rt, cat = self.rt()
        d = self.r.random() < .35 if default is None else default
        if d: sig, args, calls = 'int a = 4, int b = 5', ', a, b', [('', '4,5'), ('1', '1,5'), ('1, 2', '1,2')]
        elif self.r.random() < .5: sig, args, calls = 'int a', ', a', [('7', '7')]
        else: sig, args, calls = '', '', [('', '')]
        for c, a in calls: self.obs.append((where, name or f'f{i}', i, c, a, cat, call))
        if (trail if trail is not None else self.r.random() < .2): return f'{pre}auto {name or f"f{i}"}({sig}){post} -> {rt} {self.body(rt, i, args)}\n'
        return f'{pre}{rt} {name or f"f{i}"}({sig}){post} {self.body(rt, i, args)}\n'

    def op(self, name, sig, call, args, argev, post=''):
        self.n += 1
        i = self.n
        rt, cat = self.rt()
        self.obs.append(('member', None, i, call, argev, cat, '{}'))
        return f'{rt} operator{name}({sig}){post} {self.body(rt, i, args)}\n'

    def cls(self, name, base='', tmpl=False):
        r, s = self.r, []
        self.o0 = len(self.obs)
        body = ''
        for k in range(r.randint(2, 5)):
            body += r.choice([lambda: self.fn('member', None), lambda: self.fn('member', None, post=' const'), lambda: self.fn('static', None, pre='static '), lambda: self.fn('static', None, pre='static '), lambda: self.fn('member', None, pre='virtual ', trail=False), lambda: self.fn('member', None, post=' noexcept')])()
        if r.random() < .6: body += self.op('()', 'int a', 'o(3)', ', a', '3', r.choice(['', ' const']))
        if r.random() < .6: body += self.op('[]', 'int a', 'o[6]', ', a', '6', r.choice(['', ' const']))
        if r.random() < .6: body += self.op('+', 'int a', 'o + 2', ', a', '2', ' const')
        if r.random() < .6: body += self.op('-', '', '-o', '', '', ' const')
        return f'{{ int z = 0; {name}() {{ vt::ev("new"); }} {name}(int q) : z(q) {{ vt::ev("new", q); }} virtual ~{name}() {{}}\n{body}int plain(int a) {{ vt::ev("plain", a); return a; }}\n void nothing() {{ vt::ev("nothing"); }}\n int thrower() {{ vt::ev("thrower"); throw 5; }} int hidden_in() const {{ return 1; }} }};\n'


def policies(seed):
    def run(ctx):
        r = random.Random(seed)
        g, out, drv = Gen(r), 'namespace pp {\n', ''
        pol, cfg = {}, ['+include <raw_caster.hpp>', '+include <raw_guard.hpp>', '+python_builtin pp::Probe', '-function pp::the']
        for k in KINDS:
            if r.random() < .6:
                pol[k] = r.choice(POLICIES)
                ns = r.choice(['pybind11::return_value_policy::', 'pybind11::return_value_policy::', 'py_alias::', 'pybind11 :: return_value_policy :: '])
                if ns == 'py_alias::': ns = 'pybind11::return_value_policy::'
                cfg.append('+default_{}_{}_return_value_policy {}{}{}'.format(k[0], k[1], ' ' * r.randint(0, 3), ns, pol[k]))
        guard = r.random() < .6
        if guard: cfg.append('+default_call_guard gg::Guard')
        prefix = r.choice(['', '', 'static_', 's', 'Make__'])
        if prefix: cfg.append('+prefix_for_static_member_functions ' + prefix)
        r.shuffle(cfg)

        def emit(i0, scope, obj):
            nonlocal drv
            for where, name, i, c, a, cat, _ in g.obs[i0:]:
                p = POLICIES.index(pol.get(('member' if where == 'member' else 'static', cat), 'automatic')) if cat else 0
                body = [f'f{i}({a})']
                ev = (['enter()'] + body + ['leave()'] if guard else body) + [f'cast({p})']
                if name is None: expr = c
                else: expr = f'{obj if where == "member" else scope}.{(prefix if where == "static" else "") + name}({c})'
                drv += f't({f"{scope} {where} {name} {expr} #{i}"!r}, lambda: {expr}, ret={i}, ev={ev!r})\n'
        for k in range(r.randint(1, 3)):  # free functions
            ns = r.choice(['', '', 'in'])
            i0 = len(g.obs)
            txt = ''.join(g.fn('free', None, pre='inline ') for _ in range(r.randint(2, 5)))
            out += f'namespace {ns} {{ {txt} }}\n' if ns else txt
            emit(i0, f'ns("pp::{ns}")' if ns else 'ns("pp")', None)
        ncls = r.randint(2, 4)
        for k in range(ncls):
            i0 = len(g.obs)
            kind = r.choice(['plain', 'plain', 'nested', 'template'])
            drv += '\n'
            if kind == 'plain':
                out += f'struct C{k} ' + g.cls(f'C{k}')
                sc = f'ns("pp").C{k}'
            elif kind == 'nested':
                out += f'struct O{k} {{ struct C{k} ' + g.cls(f'C{k}') + '};\n'
                sc = f'ns("pp").O{k}.C{k}'
            else:
                out += f'template <typename T> struct C{k} ' + g.cls(f'C{k}') + f'inline int use{k}(C{k}<int> a, C{k}<double> b) {{ return 1; }}\n'
                sc = f'ns("pp").C{k}_int_t'
            for s in ([sc] if kind != 'template' else [sc, sc.replace('_int_t', '_double_t')]):
                def ctor(e): return [e]
                drv += f't({s + "()"!r}, lambda: {s}(), ev=["new()"], norm=lambda o: None)\nt({s + "(3)"!r}, lambda: {s}(3), ev=["new(3)"], norm=lambda o: None)\no = {s}()\n'
                emit(i0, s, 'o')
                w = (lambda e: ['enter()', e, 'leave()']) if guard else (lambda e: [e])
                drv += f't({s + " plain"!r}, lambda: o.plain(4), ret=4, ev={w("plain(4)")!r})\nt({s + " nothing"!r}, lambda: o.nothing(), ret=None, ev={w("nothing()")!r})\nt({s + " thrower"!r}, lambda: o.thrower(), exc="RuntimeError", ev={w("thrower()")!r})\nt({s + " field"!r}, lambda: (setattr(o, "z", 9), o.z)[1], ret=9, ev=[])\n'
                drv += f'class D({s}):\n    def __init__(self): {s}.__init__(self)\no = D()\n'
                emit(i0, 'D', 'o')
        i0 = len(g.obs)
        out += 'struct B { ' + g.fn('member', 'bm', default=False, trail=False) + g.fn('static', 'bs', pre='static ', trail=False) + ' };\nstruct P { virtual ~P() {} protected: ' + g.fn('member', 'lift', default=False, trail=False) + '};\nstruct L : P { using P::lift; };\nstruct K : B {};\n'
        drv += 'k = ns("pp").K()\nl = ns("pp").L()\n'
        obs = g.obs[i0:]
        g.obs[i0:] = [x for x in obs if x[1] != 'lift']
        emit(i0, 'ns("pp").K', 'k')
        g.obs[i0:] = [x for x in obs if x[1] == 'lift']
        emit(i0, 'ns("pp").L', 'l')
        out += '}\n'
        files = {'probe.hpp': PRE + PROBE, 'raw_caster.hpp': CASTER, 'raw_guard.hpp': GUARD, 'a.hpp': PRE + '#include <probe.hpp>\n' + out, 'main.hpp': '#include <a.hpp>\n'}
        ctx.project(files, DPRE + drv, config='\n'.join(cfg) + '\n', bind=['pp'])
    return f'policies-{seed}', run


LIFE = r'''
namespace h { struct X { int v; int id; static int &n() { static int k = 0; return k; }
X(int a = 0) : v(a), id(++n()) { vt::ev("new", id); } X(X const &o) : v(o.v), id(++n()) { vt::ev("copy", o.id, id); } X(X &&o) : v(o.v), id(++n()) { vt::ev("move", o.id, id); } X &operator=(X const &o) { v = o.v; return *this; } ~X() { vt::ev("del", id); } };
struct Own { X m; X *q; Own() : m(1), q(new X(2)) {} Own(Own const &o) = delete; ~Own() { vt::ev("own"); }
X &lref() { return m; } X const &cref() const { return m; } X *ptr() { return &m; } X const *cptr() const { return &m; } X &&rref() { return static_cast<X &&>(m); } X val() const { return X(77); } X &dl(int k = 1) { return m; } X *fresh() { return new X(3); }
static X &slref() { static X x(40); return x; } static X *sptr(); static X *sfresh() { return new X(5); } };
inline X &global() { static X x(50); return x; } inline X *Own::sptr() { return &global(); } inline X &flref() { return global(); } inline X *fptr() { return &global(); } inline X *ffresh(int a = 6) { return new X(a); } inline X fval() { return X(8); } inline X &&frref() { return static_cast<X &&>(global()); }
inline int read(X const &x) { return x.v; } inline int addr(X const &x) { return x.id; } inline int count() { return X::n(); } }
'''
LIFE_COMMON = '''
H = ns('h')
import gc
def ids(): return None
def alias(get, put):
    """does the returned object alias the C++ object?"""
    x = get(); old = put().v; x.v = 1234; r = put().v == 1234; put().v = old; return r
'''

HOLDER = r'''#pragma once
#include <vt/vt.hpp>
#include <memory>
namespace hold { template <typename T> struct ptr { std::shared_ptr<T> p; ptr() {} explicit ptr(T *t) : p(t) { vt::ev("hold"); } ptr(std::shared_ptr<T> q) : p(q) {} template <typename U> ptr(ptr<U> const &u) : p(u.p) {} T *get() const { return p.get(); } T &operator*() const { return *p; } T *operator->() const { return p.get(); } explicit operator bool() const { return !!p; } }; }
'''

MARK = r'''#pragma once
#include <vt/vt.hpp>
#include <pybind11/pybind11.h>
template <typename T, typename H> struct mark_ { mark_() {} };
#undef PYBIND11_TYPE_CASTER_BASE_HOLDER
#define PYBIND11_TYPE_CASTER_BASE_HOLDER(...) vt::put("mark " #__VA_ARGS__);
'''


def module_local(seed, which=0):
    def run(ctx):
        r = random.Random(seed)
        spaces = ['a', 'b', 'b::c', 'b::c::d', 'bb', '']
        src, items = '', []
        for k, s in enumerate(spaces):
            t = f'struct S{k} {{ int v = {k}; struct In{k} {{ int w = 1; enum class E{k} {{ p, q }}; }}; enum F{k} {{ g{k} }}; }}; enum G{k} {{ h{k} }}; enum class W{k} {{ x, y }}; template <typename T> struct T{k} {{ T t; struct N{k} {{ int n; }}; N{k} nn; enum class Q{k} {{ u }}; }}; inline int use{k}(T{k}<int> a, T{k}<double> b) {{ return 1; }}\n'
            for n in s.split('::')[::-1] if s else []: t = f'namespace {n} {{ {t} }}\n'
            src += t
            m = f'ns({s!r})'
            items += [(s, f'{m}.{n}') for n in (f'S{k}', f'S{k}.In{k}', f'S{k}.In{k}.E{k}', f'S{k}.F{k}', f'G{k}', f'W{k}', f'T{k}_int_t', f'T{k}_double_t', f'T{k}_int_t.N{k}', f'T{k}_int_t.Q{k}')]
        mode = ['all-minus', 'some', 'all', 'some', 'minus', 'none'][which % 6]  # every run has the first three
        named = [s for s in spaces if s]
        add = r.sample(named, r.randint(1, 3)) if mode == 'some' else ['@all_namespaces'] if mode.startswith('all') else []
        skip = r.sample(named, 3) if mode in ('all-minus', 'minus') else r.sample([s for s in named if s not in add], 1) if mode == 'some' else []
        cfg = [f'+module_local_namespace {s}' for s in add] + [f'-module_local_namespace {s}' for s in skip]
        r.shuffle(cfg)
        local = {s: (s in add or '@all_namespaces' in add) and s not in skip for s in spaces}
        drv = 'def is_local(c): return any(k.startswith("__pybind11_module_local_") for k in c.__dict__)\n' + ''.join(f't({f"{cfg} {e} local"!r}, lambda: is_local({e}), ret={local[s]!r})\n' for s, e in items)
        ctx.project({'a.hpp': PRE + src, 'main.hpp': '#include <a.hpp>\n'}, DPRE + drv, config='\n'.join(cfg) + '\n', bind=[''])
        # a second module with the same types: local types can be registered twice, global ones can not
        if any(local.values()):
            sp = [s for s in spaces if all(local[q] for q in spaces if q == s or q.startswith(s + '::') or not s)]
            if not sp: return
            rc, o, e = ctx.binder(root='two', out='out2', config='\n'.join(cfg) + '\n', bind=sp)
            if not ctx.ok(rc == 0, 'second module: binder', e[-300:]): return
            bad = ctx.compile(root='two', out='out2', unity=True)
            if not ctx.ok(not bad, 'second module: compile', str(bad)[:800]): return
            d2 = DPRE + 'two = importlib.import_module("two")\n'
            for s in sp: d2 += f'A, B = ns({s!r}), two' + ''.join(f'.{p}' for p in s.split('::') if s) + f'\nk = {spaces.index(s)}\nt("distinct {s}", lambda: getattr(A, f"S{{k}}") is not getattr(B, f"S{{k}}"), ret=True)\nt("usable {s}", lambda: (getattr(A, f"S{{k}}")().v, getattr(B, f"S{{k}}")().v), ret=(k, k))\n'
            ctx.drive(d2, name='two')
    return f'module-local-{seed}', run


CASES = [
 scen('default-policies', LIFE, LIFE_COMMON + '''
o = H.Own(); g = H.flref
m = lambda: o.m
t('member reference copies', lambda: alias(o.lref, m), ret=False)
t('member const reference copies', lambda: alias(o.cref, m), ret=False)
t('member reference with default argument copies', lambda: alias(o.dl, m), ret=False)
t('member reference with argument copies', lambda: alias(lambda: o.dl(3), m), ret=False)
t('static reference copies', lambda: alias(H.Own.slref, H.Own.slref), ret=False)
t('free reference copies', lambda: H.flref() is H.flref(), ret=False)
t('value', lambda: o.val().v, ret=77)
t('free value', lambda: H.fval().v, ret=8)
n = H.count()
x = t('pointer is owned', lambda: o.fresh(), ev=[f'new({n + 1})'])
def drop():
    global x
    x = None; gc.collect()
t('and destroyed', drop, ev=[f'del({n + 1})'])
x = t('static pointer is owned', lambda: H.Own.sfresh(), ev=[f'new({n + 2})'])
t('and destroyed 2', drop, ev=[f'del({n + 2})'])
x = t('free pointer is owned', lambda: H.ffresh(), ev=[f'new({n + 3})'])
t('and destroyed 3', drop, ev=[f'del({n + 3})'])
x = t('free pointer with argument is owned', lambda: H.ffresh(9).v, ret=9, ev=[f'new({n + 4})', f'del({n + 4})'])
t('rvalue references are not bound', lambda: (hasattr(o, 'rref'), hasattr(H, 'frref')), ret=(False, False))
'''),
 scen('reference-policies', LIFE, LIFE_COMMON + '''
o = H.Own(); m = lambda: o.m
for nm, f in [('reference', o.lref), ('const reference', o.cref), ('pointer', o.ptr), ('const pointer', o.cptr), ('default argument', o.dl), ('argument', lambda: o.dl(2))]:
    t(nm + ' aliases', lambda: alias(f, m), ret=True)
    t(nm + ' no events', lambda: f().v, ret=1, ev=[])
for nm, f in [('static reference', H.Own.slref)]: t(nm, lambda: alias(f, f), ret=True); t(nm + ' no events', lambda: f().v, ret=40, ev=[])
for nm, f in [('static pointer', H.Own.sptr), ('free reference', H.flref), ('free pointer', H.fptr)]: t(nm + ' aliases', lambda: alias(f, H.flref), ret=True); t(nm + ' no events', lambda: f().v, ret=50, ev=[])
t('value unaffected', lambda: o.val().v, ret=77)
''', config=''.join(f'+default_{w}_{c}_return_value_policy pybind11::return_value_policy::reference{"_internal" if w == "member" else ""}\n' for w, c in KINDS if c != 'rvalue_reference')),
 scen('internal-reference-keeps-parent', LIFE, LIFE_COMMON + '''
o = H.Own(); a = o.lref(); i = H.addr(a)
def drop():
    global o
    o = None; gc.collect()
t('parent stays', drop, ev=[])
t('usable', lambda: a.v, ret=1)
def drop2():
    global a
    a = None; gc.collect()
t('parent goes with the reference', drop2, ev=['own()', f'del({i})'])
o = H.Own(); a = o.ptr(); i = H.addr(a)
t('pointer: parent stays', drop, ev=[])
t('pointer: gone', drop2, ev=['own()', f'del({i})'])
o = H.Own(); a = o.dl(); i = H.addr(a)
t('default argument: parent stays', drop, ev=[])
t('default argument: gone', drop2, ev=['own()', f'del({i})'])
''', config='+default_member_lvalue_reference_return_value_policy pybind11::return_value_policy::reference_internal\n+default_member_pointer_return_value_policy pybind11::return_value_policy::reference_internal\n'),
 scen('copy-pointers', LIFE, LIFE_COMMON + '''
o = H.Own()
for nm, f in [('pointer', o.ptr), ('const pointer', o.cptr)]: t(nm + ' copies', lambda: alias(f, lambda: o.m), ret=False); t(nm + ' events', lambda: f().v, ret=1, norm=lambda v: v)
t('free pointer unaffected', lambda: H.ffresh(3).v, ret=3)
n = H.count()
t('static pointers are owned', lambda: H.Own.sfresh().v, ret=5, ev=[f'new({n + 1})', f'del({n + 1})'])
t('member pointer is copied', lambda: o.ptr().v, ret=1, ev=['copy(%d,%d)' % (H.addr(o.m), n + 2), f'del({n + 2})'])
''', config='+default_member_pointer_return_value_policy pybind11::return_value_policy::copy\n'),

 scen('default-holder', '''
namespace h { struct A { int v = 1; virtual ~A() {} virtual int f() { return 1; } }; struct B : A { }; struct S : std::enable_shared_from_this<S> { int v = 3; std::shared_ptr<S> me() { return shared_from_this(); } }; struct N { struct In { int z = 1; }; };
class Pd { ~Pd() { vt::ev("pd"); } Pd() {} Pd(Pd const &) {} public: int v = 5; static Pd *get() { static Pd *p = new Pd; return p; } int f() { return v; } friend struct F; };
struct F { static int all() { delete Pd::get(); return 1; } };
inline long ca(std::shared_ptr<A> a) { return a.use_count(); } inline long cs(std::shared_ptr<S> a) { return a.use_count(); } inline long ci(std::shared_ptr<N::In> a) { return a.use_count(); } inline std::shared_ptr<A> &slot() { static std::shared_ptr<A> s; return s; } inline void put(std::shared_ptr<A> a) { slot() = a; } inline std::shared_ptr<A> get() { return slot(); } inline long uses() { return slot().use_count(); } }
''', '''
H = ns('h'); import gc
t('shared with C++', lambda: H.ca(H.A()), ret=True, norm=lambda n: n >= 2)
t('derived', lambda: H.ca(H.B()), ret=True, norm=lambda n: n >= 2)
t('nested', lambda: H.ci(H.N.In()), ret=True, norm=lambda n: n >= 2)
t('from this', lambda: H.cs(H.S()), ret=True, norm=lambda n: n >= 2)
s = H.S(); t('me', lambda: s.me() is s, ret=True)
a = H.A(); H.put(a)
t('two owners', lambda: H.uses(), ret=True, norm=lambda n: n >= 2)
t('identity', lambda: H.get() is a, ret=True)
a = None; gc.collect()
t('one owner', lambda: H.uses(), ret=1)
t('still there', lambda: H.get().v, ret=1)
p = H.Pd.get()
t('private destructor', lambda: p.f(), ret=5)
p = None
t('not destroyed', lambda: gc.collect() >= 0, ret=True, ev=[])
t('again', lambda: H.Pd.get().v, ret=5)
''', config='+default_static_pointer_return_value_policy pybind11::return_value_policy::reference\n'),
 scen('custom-holder', {'hold.hpp': HOLDER, 'a.hpp': '''
#include <hold.hpp>
namespace h { struct A { int v = 1; virtual ~A() { vt::ev("~A"); } virtual int f() { return v; } }; struct B : A { struct In { int z = 4; }; }; template <typename T> struct V { T t{}; int one() { return 1; } }; class Pd { ~Pd() {} Pd() {} Pd(Pd const &) {} public: int v = 5; static Pd *get() { static Pd *p = new Pd; return p; } };
inline hold::ptr<A> make(int v) { auto p = hold::ptr<A>(new A()); p->v = v; return p; } inline int use(hold::ptr<A> a) { return a->f(); } inline long count(hold::ptr<A> a) { return a.p.use_count(); } inline int vv(V<int> a, V<double> b) { return 1; } inline long cv(hold::ptr<V<int>> v) { return v.p.use_count(); } struct Keep { hold::ptr<A> a; void set(hold::ptr<A> x) { a = x; } hold::ptr<A> get() const { return a; } }; }
''', 'main.hpp': '#include <a.hpp>\n'}, '''
H = ns('h'); import gc
for e in ('H.A()', 'H.B()', 'H.B.In()', 'H.V_int_t()', 'H.V_double_t()', 'H.Keep()'):
    x = t(e, lambda: eval(e), ev=['hold()'])
t('A destroyed', lambda: H.A(), ev=['hold()', '~A()'], norm=lambda o: None)
t('returned', lambda: H.make(7).v, ret=7, ev=['hold()', '~A()'])
a = H.A()
t('passed', lambda: H.use(a), ret=1, ev=[])
t('shared', lambda: H.count(a), ret=True, norm=lambda n: n >= 2)
t('template shared', lambda: H.cv(H.V_int_t()), ret=True, norm=lambda n: n >= 2)
k = H.Keep(); k.set(a)
t('kept', lambda: k.get() is a, ret=True)
def drop():
    global a
    a = None; gc.collect()
t('kept by C++', drop, ev=[])
def drop2():
    global k
    k = None; gc.collect()
t('released', drop2, ev=['~A()'])
t('no holder for private destructors', lambda: H.Pd.get().v, ret=5, ev=[])
class D(H.A):
    def f(self): return 33
t('python subclass', lambda: H.use(D()), ret=33)
''', config='+custom_shared hold::ptr\n+include <hold.hpp>\n+default_static_pointer_return_value_policy pybind11::return_value_policy::reference\n', bind=('h',)),

 scen('static-prefix', '''
namespace h { struct A { static int f(int a = 1) { return a; } int g(int a = 2) { return a; } static A make() { return A(); } static int k; virtual int same() { return 8; } virtual ~A() {} struct In { static int f() { return 11; } }; static A operator_() { return A(); } }; template <typename T> struct V { static int s() { return sizeof(T); } int m() { return 1; } }; inline int use(V<int>) { return 1; } inline int free_fn() { return 3; } }
''', '''
H = ns('h')
t('names', lambda: [n for n in names(H.A) if not n.startswith('_')], ret=['In', 'g', 'same', 'st_f', 'st_make', 'st_operator_'], norm=lambda l: [n for n in l if n != 'k'])
t('f', lambda: (H.A.st_f(), H.A.st_f(4)), ret=(1, 4))
t('g', lambda: (H.A().g(), H.A().g(4)), ret=(2, 4))
t('make', lambda: H.A.st_make().same(), ret=8)
t('nested', lambda: H.A.In.st_f(), ret=11)
t('template', lambda: (H.V_int_t.st_s(), H.V_int_t().m()), ret=(4, 1))
t('template names', lambda: names(H.V_int_t), ret=['m', 'st_s'])
t('free', lambda: H.free_fn(), ret=3)
''', config='+prefix_for_static_member_functions st_\n'),

 scen('guard-defaults', {'guard.hpp': GUARD, 'a.hpp': '''
namespace h { struct A { int x = 1; A(int a = 3) : x(a) { vt::ev("ctor", a); } A(A const &o) : x(o.x) { vt::ev("copy"); } A &operator=(A const &o) { vt::ev("assign"); x = o.x; return *this; } ~A() {} virtual int v(int a = 2) { vt::ev("v", a); return a; } int call(int a) { vt::ev("call"); return v(a); } static int s(int a = 5) { vt::ev("s", a); return a; } int operator+(int a) const { vt::ev("plus", a); return a; } int operator()(int a, int b = 7) { vt::ev("fn", a, b); return b; } std::string str() const { vt::ev("str"); return "x"; } static int counter; enum E { e1 }; };
template <typename T> T twice(T a) { vt::ev("twice"); return a + a; } inline int use() { vt::ev("use"); return twice(2) + (int)twice(1.5); } template <typename T> struct V { T get(T a = T()) { vt::ev("get"); return a; } }; inline int uv(V<int> v) { vt::ev("uv"); return 1; } inline int err(int a) { vt::ev("err"); if( a ) throw 1; return 0; } inline void vd(std::string const &s, double d = 1.5) { vt::ev("vd", s, d); } }
''', 'main.hpp': '#include <a.hpp>\n'}, '''
H = ns('h')
G = lambda *e: ['enter()', *e, 'leave()']
t('ctor', lambda: H.A(4), ev=['ctor(4)'], norm=lambda o: None)
t('ctor default', lambda: H.A(), ev=['ctor(3)'], norm=lambda o: None)
a = H.A()
t('copy', lambda: H.A(a), ev=['copy()'], norm=lambda o: None)
t('field', lambda: (a.x, setattr(a, 'x', 3), a.x), ret=(3, None, 3), ev=[])
t('virtual', lambda: a.v(4), ret=4, ev=G('v(4)'))
t('virtual default', lambda: a.v(), ret=2, ev=G('v(2)'))
t('calls virtual', lambda: a.call(9), ret=9, ev=G('call()', 'v(9)'))
class D(H.A):
    def v(self, x): return H.A.v(self, x + 1)
d = D()
t('through python', lambda: d.call(1), ret=2, ev=['enter()', 'call()', 'enter()', 'v(2)', 'leave()', 'leave()'])
t('static', lambda: H.A.s(1), ret=1, ev=G('s(1)'))
t('static default', lambda: H.A.s(), ret=5, ev=G('s(5)'))
t('operator', lambda: a + 3, ret=3, ev=G('plus(3)'))
t('call operator', lambda: a(1), ret=7, ev=G('fn(1,7)'))
t('call operator 2', lambda: a(1, 2), ret=2, ev=G('fn(1,2)'))
t('assign', lambda: a.assign(H.A(8)).x, ret=8, norm=lambda v: v)
t('string', lambda: a.str(), ret='x', ev=G('str()'))
t('template function', lambda: H.twice(4), ret=8, ev=G('twice()'))
t('free', lambda: H.use(), ret=7, ev=G('use()', 'twice()', 'twice()'))
t('class template', lambda: H.V_int_t().get(), ret=0, ev=G('get()'))
t('class template 2', lambda: H.V_int_t().get(2), ret=2, ev=G('get()'))
t('throws', lambda: H.err(1), exc='RuntimeError', ev=G('err()'))
t('after a throw', lambda: H.err(0), ret=0, ev=G('err()'))
t('void', lambda: H.vd('s'), ret=None, ev=G("vd('s',1.5)"))
t('wrong arguments', lambda: H.vd(1, 2, 3), exc='TypeError', ev=[])
'''.replace("ret=(3, None, 3), ev=[])", "norm=lambda v: v[2], ret=3, ev=[])"), config='+default_call_guard gg::Guard\n+include <guard.hpp>\n'),

 scen('buffer-protocol', '''
namespace h { struct A { int a = 1; }; struct B { int a = 1; struct In { int z = 1; }; }; struct D : B {}; template <typename T> struct V { T t{}; struct N { int q = 1; }; }; inline int use(V<int>, V<double>) { return 1; } namespace k { struct A { int a = 1; }; } }
''', '''
H = ns('h')
def buf(o):
    try: memoryview(o)
    except BufferError: return True
    except TypeError: return False
want = {'A': False, 'B': True, 'B.In': False, 'V_int_t': True, 'V_double_t': True, 'k.A': True}
for n, w in want.items(): t(n, lambda: buf(eval('H.' + n)()), ret=w)
''', config='+buffer_protocol h::B\n+buffer_protocol h::V\n+buffer_protocol h::k::A\n'),

 scen('smart-holder', {'raw_mark.hpp': MARK, 'a.hpp': '''
namespace h { struct A { int a = 1; }; struct B { int a = 1; virtual ~B() {} virtual int f() { return 1; } struct In { int z = 1; }; }; template <typename T> struct V { T t{}; }; inline int use(V<int>, V<double>) { return 1; } namespace k { struct A { int a = 1; }; } class Pd { ~Pd() {} Pd() {} Pd(Pd const &) {} public: static Pd *g() { static Pd *p = new Pd; return p; } }; }
''', 'main.hpp': '#include <a.hpp>\n'}, '''
t('classes', lambda: None, norm=lambda v: sorted(MARKS), ret=['mark h::B , std::shared_ptr<h::B>', 'mark h::V<double> , std::shared_ptr<h::V<double>>', 'mark h::V<int> , std::shared_ptr<h::V<int>>', 'mark h::k::A , std::shared_ptr<h::k::A>'])
t('works', lambda: (ns('h').B().f(), ns('h').A().a), ret=(1, 1))
'''.replace('t(', 'import driver_rt\nMARKS = driver_rt.IMPORT_EVENTS\nt(', 1), config='+smart_holder h::B\n+smart_holder h::V\n+smart_holder h::k::A\n+include <raw_mark.hpp>\n'),
 scen('pybind11-include-file', {'raw_mine.hpp': '#pragma once\n#include <pybind11/pybind11.h>\n#include <vt/vt.hpp>\n#define MINE_ 1\n', 'raw_need.hpp': '#ifndef MINE_\n#error the configured pybind11 header is missing\n#endif\n', 'a.hpp': 'namespace h { struct A { int a = 1; }; namespace k { struct B { int b = 2; }; } }\nnamespace j { inline int f() { return 3; } }\n', 'main.hpp': '#include <a.hpp>\n'}, '''
t('works', lambda: (ns('h').A().a, ns('h::k').B().b, ns('j').f()), ret=(1, 2, 3))
''', config='+pybind11_include_file raw_mine.hpp\n+include <raw_need.hpp>\n', unity=False, args=('--max-file-size', '1')),
]


def conflict(ctx):
    """contradicting module-local directives are an error, wherever the namespace is used"""
    for k, src in enumerate(['struct A { int v; };', 'enum E { e };', 'struct A { struct In { int z; }; };', 'template <typename T> struct V { T t; }; inline int use(V<int>) { return 1; }']):
        ctx.src({'a.hpp': PRE + f'namespace n {{ {src} }}\nnamespace o {{ struct Z {{ int z; }}; }}\n', 'main.hpp': '#include <a.hpp>\n'})
        rc, o, e = ctx.binder(config='+module_local_namespace n\n-module_local_namespace n\n', bind=['n'], out=f'o{k}')
        ctx.ok(rc != 0 and 'module_local' in o + e, f'conflict reported for {src}', f'rc={rc} {e[-300:]}')
        rc, o, e = ctx.binder(config='+module_local_namespace o\n-module_local_namespace n\n', bind=['n', 'o'], out=f'p{k}')
        ctx.ok(rc == 0, f'no conflict for {src}', f'rc={rc} {e[-300:]}')


def cases(check, rng, tier):
    return [policies(s) for s in seeds(rng, nworlds(tier, 8, 120))] + [module_local(s, k) for k, s in enumerate(seeds(rng, nworlds(tier, 3, 30)))] + CASES + [('module-local-conflict', conflict)]


CHECK = Check('C15', 'exploration', 'recording type caster, guard, holder and registration events over configured bindings, compared with the configuration',
              'one observation per call, construction or type; non-trivial = distinct (project, operation)', cases,
              assumptions=['the policy a function is bound with is what a non-generic caster receives', 'pybind11 of this sandbox has no smart holder: its macro is replaced by a recorder'])
