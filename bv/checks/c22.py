"""C22: histories of operations on bound objects against a model of who owns what."""
import json, os, random
from concurrent.futures import ThreadPoolExecutor
from ..core import Check, CXX18, CFLAGS, REPO, SUPPORT, ENV, sh
from ..scen import DPRE, files_of, seeds, nworlds

HDR = r'''#include <vt/life.hpp>
#include <vector>
#include <stdexcept>
namespace L {
class S { vt::Tr tr; public: S() {} S(int x) : v(x) {} S(S const &o) : tr(o.tr), v(o.v) {} S &operator=(S const &o) { tr = o.tr; v = o.v; return *this; } int id() const { return tr.id(); } int v = 0; S &operator+=(int x) { tr.id(); v += x; return *this; } S operator+(int x) const { S r(*this); r.v += x; return r; } S &self() { tr.id(); return *this; } S *me() { tr.id(); return this; } S const &cself() const { return *this; } };
class D : public S { vt::Tr tr2; public: D() {} D(D const &) = default; D &operator=(D const &) = default; int id2() const { return tr2.id(); } };
class P { vt::Tr tr; public: P() {} P(P const &o) = default; P &operator=(P const &) = default; int id() const { return tr.id(); } S inner; D second; std::shared_ptr<S> sp; S &ref() { return inner; } S *ptr() { return &inner; } S const &cref() const { return second; } S copy() const { return inner; } std::shared_ptr<S> share() const { return sp; } S &operator[](int) { return inner; } };
class V { vt::Tr tr; public: V() {} V(int) {} V(V const &) = default; virtual ~V() {} int id() const { return tr.id(); } virtual int f(int x) { tr.id(); return x + 1; } virtual std::shared_ptr<S> give(std::shared_ptr<S> s) { return s; } int call(int x) { return f(x); } };
class W : public V { vt::Tr tr2; public: W() {} W(W const &) = default; int id2() const { return tr2.id(); } int f(int x) override { return x + 2; } };
class B { vt::Tr tr; public: B() {} B(B const &) = default; virtual ~B() {} int id() const { return tr.id(); } virtual int g(int x) { tr.id(); return x + 10; } int callb(int x) { return g(x); } };
class M2 : public V, public B { vt::Tr tr2; public: M2() {} M2(M2 const &) = default; int id() const { tr2.id(); return V::id(); } int f(int x) override { tr2.id(); return x + 3; } int g(int x) override { tr2.id(); return x + 13; } };
class E : public std::enable_shared_from_this<E> { vt::Tr tr; public: E() {} int id() const { return tr.id(); } std::shared_ptr<E> again() { return shared_from_this(); } };
class N { vt::Tr tr; N() {} N(N const &); ~N() {} public: int id() const { return tr.id(); } static N *one(int k) { static N *a[3] = {new N, new N, new N}; return a[k]; } static N &ref(int k) { return *one(k); } };
class A { vt::Tr tr; public: A() {} A(A const &) = default; virtual ~A() {} int id() const { return tr.id(); } virtual int pure(int) = 0; int call(int x) { return pure(x); } };
struct Err : std::runtime_error { vt::Tr tr; Err() : std::runtime_error("err") {} };
}
namespace Lst { std::vector<std::shared_ptr<L::B> > &store_b(); std::vector<std::shared_ptr<L::S> > &store_s(); std::vector<std::shared_ptr<L::V> > &store_v(); std::vector<std::shared_ptr<L::A> > &store_a(); std::vector<std::shared_ptr<L::E> > &store_e(); std::vector<std::shared_ptr<L::P> > &store_p(); }
'''
IMPL = r'''#include <main.hpp>
using namespace L;
namespace Lst {
std::vector<std::shared_ptr<S> > &store_s() { static auto *x = new std::vector<std::shared_ptr<S> >(8); return *x; }
std::vector<std::shared_ptr<V> > &store_v() { static auto *x = new std::vector<std::shared_ptr<V> >(8); return *x; }
std::vector<std::shared_ptr<A> > &store_a() { static auto *x = new std::vector<std::shared_ptr<A> >(8); return *x; }
std::vector<std::shared_ptr<E> > &store_e() { static auto *x = new std::vector<std::shared_ptr<E> >(8); return *x; }
std::vector<std::shared_ptr<P> > &store_p() { static auto *x = new std::vector<std::shared_ptr<P> >(8); return *x; }
std::vector<std::shared_ptr<B> > &store_b() { static auto *x = new std::vector<std::shared_ptr<B> >(8); return *x; }
}
'''


def api():
    s = 'namespace L { namespace api {\n'
    for t, c in (('s', 'S'), ('v', 'V'), ('a', 'A'), ('e', 'E'), ('p', 'P'), ('b', 'B')):
        s += f'inline void put_{t}(int k, std::shared_ptr<{c}> x) {{ Lst::store_{t}()[k] = x; }} inline void putc_{t}(int k, std::shared_ptr<{c}> const &x) {{ Lst::store_{t}()[k] = x; }} inline std::shared_ptr<{c}> get_{t}(int k) {{ return Lst::store_{t}()[k]; }} inline void drop_{t}(int k) {{ Lst::store_{t}()[k].reset(); }}\n'
        s += f'inline int byref_{t}({c} &x) {{ return x.id(); }} inline int bycref_{t}({c} const &x) {{ return x.id(); }} inline int byptr_{t}({c} *x) {{ return x ? x->id() : 0; }} inline int bycptr_{t}({c} const *x) {{ return x ? x->id() : 0; }} inline int bysp_{t}(std::shared_ptr<{c}> x) {{ return x ? x->id() : 0; }}\n'
        if c not in 'AE': s += f'inline int byval_{t}({c} x) {{ return x.id(); }} inline {c} dup_{t}({c} const &x) {{ return x; }} inline {c} *raw_{t}() {{ return new {c}(); }} inline {c} fresh_{t}(int x) {{ return {c}(); }} inline std::shared_ptr<{c}> mk_{t}() {{ return std::make_shared<{c}>(); }} inline void throwing_{t}({c} x, {c} const &, std::shared_ptr<{c}>) {{ throw Err(); }}\n'
    s += '''inline std::shared_ptr<E> mk_e() { return std::make_shared<E>(); } inline std::shared_ptr<E> from_ref(E &e) { return e.shared_from_this(); } inline std::shared_ptr<S> mk_d() { return std::make_shared<D>(); } inline std::shared_ptr<V> mk_w() { return std::make_shared<W>(); } inline std::shared_ptr<S> null_s() { return nullptr; } inline S *nullp_s() { return nullptr; }
inline S &ref_of(S &x) { return x; } inline S const &cref_of(S const &x) { return x; } inline S *ptr_of(S &x) { return &x; } inline S &stored_ref(int k) { return *Lst::store_s()[k]; } inline S *stored_ptr(int k) { return Lst::store_s()[k].get(); } inline S const &stored_cref(int k) { return *Lst::store_s()[k]; }
struct St { static S &ref(int k) { return *Lst::store_s()[k]; } static S *ptr(int k) { return Lst::store_s()[k].get(); } static std::shared_ptr<S> sp(int k) { return Lst::store_s()[k]; } static S val(int k) { return *Lst::store_s()[k]; } };
inline int drive_v(int k, int x) { return Lst::store_v()[k]->call(x); } inline int drive_b(int k, int x) { return Lst::store_b()[k]->callb(x); } inline std::shared_ptr<B> mk_mb() { return std::make_shared<M2>(); } inline std::shared_ptr<V> mk_mv() { return std::make_shared<M2>(); } inline int drive_a(int k, int x) { return Lst::store_a()[k]->call(x); } inline std::shared_ptr<S> through_v(V &v, std::shared_ptr<S> s) { return v.give(s); } inline std::shared_ptr<S> inner_alias(std::shared_ptr<P> p) { return std::shared_ptr<S>(p, &p->inner); }
} }
'''
    return s


# the reference model and the random histories; runs in the process that has imported the module
DRV = r'''
import random, os, weakref
N, A = M.L, M.L.api
_life = ctypes.CDLL(M.__file__).vt_life
_life.restype = ctypes.c_char_p
def life():
    f, n, l = _life().decode().split('|')
    return f, int(n), frozenset(int(x) for x in l.split(',') if x)
class PV(N.V):
    def f(self, x): return 100 + x
class PVs(N.V):
    def give(self, s):
        self.kept = s
        return s
class PA(N.A):
    def pure(self, x): return 200 + x
class PS(N.S): pass
class PB(N.B):
    def g(self, x): return 300 + x
class PM(N.M2):
    def f(self, x): return 400 + x
    def g(self, x): return 500 + x
REFPOL = POLICY
class Obj:
    """a C++ object: its numbers; parts live and die with it"""
    def __init__(s, kind, ids, parts=()): s.kind, s.ids, s.parts, s.sp = kind, list(ids), list(parts), None
class Wr:
    """a Python object that stands for a C++ object"""
    def __init__(s, py, obj, owns, keep=None, view=None):
        s.weak, s.obj, s.owns, s.keep, s.attr, s.view = weakref.ref(py), obj, owns, keep, None, view or obj.kind
        s.strong = py
    @property
    def py(s): return s.weak() if s.strong is None else s.strong
class Model:
    def __init__(m, r):
        m.r, m.vars, m.store, m.tmp = r, [], {t: [None] * 8 for t in 'svaepb'}, []
        m.parents = {}
    def live_wrappers(m):
        out, todo = [], [w for w in m.vars]
        while todo:
            w = todo.pop()
            if w in out: continue
            out.append(w)
            if w.keep: todo.append(w.keep)
            if w.attr: todo.append(w.attr)
        return out
    def live(m):
        roots = [w.obj for w in m.live_wrappers() if w.owns] + [o for l in m.store.values() for o in l if o]
        ids, done = set(), []
        todo = list(roots)
        while todo:
            o = todo.pop()
            if o in done: continue
            done.append(o)
            ids.update(o.ids)
            todo += o.parts + ([o.sp] if o.sp else []) + ([o.own] if getattr(o, 'own', None) else [])
        return ids
    def settle(m):
        """the model itself holds the objects in variables only; all others live by what the module keeps alive"""
        for w in m.live_wrappers():
            if w in m.vars: w.strong = w.weak()
            else: w.strong = None
    def find(m, obj, view=None):
        """the Python object that exists for a C++ object; objects without virtual functions have one per type they are seen as"""
        for w in m.live_wrappers():
            if w.obj is obj and w.view == (view or obj.kind): return w
    def of(m, kinds): return [w for w in m.vars if w.view in kinds]
# the numbers given out while an object of a kind is created, in order of construction
SIZE = {'S': 1, 'D': 2, 'P': 4, 'V': 1, 'W': 2, 'E': 1, 'A': 1, 'B': 1, 'M': 3}
def build(kind, first):
    if kind == 'P': return Obj('P', [first], [Obj('S', [first + 1]), Obj('D', [first + 2, first + 3])])
    return Obj(kind, range(first, first + SIZE[kind]))
PY = {'S': N.S, 'D': N.D, 'P': N.P, 'V': N.V, 'W': N.W, 'E': N.E, 'A': N.A, 'B': N.B, 'M': N.M2}
ST = {'S': 's', 'D': 's', 'P': 'p', 'V': 'v', 'W': 'v', 'E': 'e', 'A': 'a', 'B': 'b', 'M': 'vb'}
NODEL = [w.id() for w in (N.N.one(0), N.N.one(1), N.N.one(2))]
m = Model(random.Random(SEED))
hist = []
def ident(w):
    if w.py is None: return 'Python object of C++ object %s is gone although it is referred to' % w.obj.ids
    i = w.py.id()
    return '' if i == w.obj.ids[0] else 'Python object of C++ object %s reports %s' % (w.obj.ids, i)
def got(py, obj, owns=True, keep=None, base=False):
    """record the result of an operation: the Python object that stands for obj"""
    view = 'S' if base and obj.kind == 'D' else obj.kind
    w = m.find(obj, view)
    if w is not None:
        if py is not w.py: return 'another Python object for the C++ object %s' % obj.ids
    else: w = Wr(py, obj, owns, keep, view)
    m.vars.append(w)
    return ident(w)
def step(k):
    r = m.r
    f0, n0, l0 = life()
    nxt = n0 + 1
    ops = ['new', 'new', 'drop', 'drop', 'drop', 'put', 'get', 'dropc', 'pass', 'factory', 'dup', 'alias', 'inner', 'setsp', 'getsp', 'again', 'attr', 'subclass', 'call', 'throw', 'nodel', 'ref', 'ref', 'ref', 'iop', 'fail', 'stored', 'assign', 'copy', 'gc', 'setinner', 'cast', 'through']
    op = r.choice(ops)
    note = op
    err = ''
    if op == 'new':
        kd = r.choice('SSDPPVWEBM')
        note += ' ' + kd
        err = got(PY[kd](), build(kd, nxt))
    elif op == 'subclass':
        c = r.choice([PV, PVs, PA, PS, PB, PM])
        kd = {PV: 'V', PVs: 'V', PA: 'A', PS: 'S', PB: 'B', PM: 'M'}[c]
        note += ' ' + c.__name__
        err = got(c(), build(kd, nxt))
        m.vars[-1].sub = c
    elif op == 'copy':
        c = m.of('SDPVWBM')
        if c:
            w = r.choice(c)
            kd = w.view
            b = build(kd, nxt)
            if kd == 'P': b.sp = w.obj.sp
            t = PY[kd]
            x = t(w.py)
            err = got(x, b) + ident(w)
    elif op == 'drop':
        if m.vars: m.vars.pop(r.randrange(len(m.vars)))
    elif op in ('put', 'dropc', 'get'):
        t = r.choice('svaepb')
        i = r.randrange(8)
        note += ' %s[%d]' % (t, i)
        if op == 'put':
            c = [w for w in m.vars if t in ST.get(w.obj.kind, '') and w.owns]
            if c:
                w = r.choice(c)
                getattr(A, r.choice(['put_', 'putc_']) + t)(i, w.py)
                m.store[t][i] = w.obj
        elif op == 'dropc':
            getattr(A, 'drop_' + t)(i)
            m.store[t][i] = None
        else:
            x = getattr(A, 'get_' + t)(i)
            o = m.store[t][i]
            if o is None: err = '' if x is None else 'object from an empty place'
            else:
                err = got(x, o, base=True)
                if not err and type(x) is not getattr(m.vars[-1], 'sub', PY[o.kind]) and o.kind in 'VWBM': err = 'type %s for a %s' % (type(x), o.kind)
    elif op == 'pass':
        if m.vars:
            w = r.choice(m.vars)
            for t in ST.get(w.obj.kind, ''):
                first = w.obj.ids[1] if (w.obj.kind, t) == ('M', 'b') else w.obj.ids[0]
                fs = ['byref_', 'bycref_', 'byptr_', 'bycptr_'] + (['bysp_'] if w.owns else [])
                for f in fs:
                    x = getattr(A, f + t)(w.py)
                    if x != first: err += '%s%s saw object %s instead of %s; ' % (f, t, x, first)
                if t not in 'ae':
                    x = getattr(A, 'byval_' + t)(w.py)
                    if not x > n0: err += 'no copy was made; '
    elif op == 'factory':
        f, kd = r.choice([('raw_s', 'S'), ('raw_v', 'V'), ('raw_p', 'P'), ('mk_s', 'S'), ('mk_v', 'V'), ('mk_p', 'P'), ('mk_e', 'E'), ('mk_w', 'W'), ('mk_mb', 'M'), ('mk_mv', 'M'), ('raw_b', 'B'), ('mk_b', 'B'), ('fresh_v', 'V'), ('fresh_s', 'S'), ('null', '')])
        note += ' ' + f
        if f == 'null': err = '' if A.null_s() is None and A.nullp_s() is None else 'object from null'
        elif f[:3] == 'fre':
            x = getattr(A, f)(1)
            i = x.id()
            err = got(x, Obj(kd, [i]))
        elif REFPOL and f[:3] == 'raw': pass
        else: err = got(getattr(A, f)(), build(kd, nxt))
    elif op == 'dup':
        c = m.of('SV')
        if c:
            w = r.choice(c)
            x = getattr(A, 'dup_' + ST[w.obj.kind])(w.py)
            i = x.id()
            if i <= n0: err = 'result is not a new object; '
            err += got(x, Obj(w.view, [i])) + ident(w)
    elif op == 'inner':
        c = m.of('P')
        if c:
            w = r.choice(c)
            j = r.choice([0, 1])
            err = got(w.py.inner if j == 0 else w.py.second, w.obj.parts[j], False, w)
    elif op == 'ref':
        c = m.of('P')
        if c:
            w = r.choice(c)
            q = r.randrange(4)
            note += ' %d' % q
            if REFPOL:
                if q == 0: err = got(w.py.ref(), w.obj.parts[0], False, w)
                elif q == 1: err = got(w.py.ptr(), w.obj.parts[0], False, w)
                elif q == 2: err = got(w.py[3], w.obj.parts[0], False, w)
            elif q == 0 and m.find(w.obj.parts[0]) is None or q == 3:
                x = w.py.ref() if q == 0 else w.py.copy()
                i = x.id()
                if i <= n0: err = 'no copy; '
                err += got(x, Obj('S', [i]))
    elif op == 'stored':
        i = r.randrange(8)
        o = m.store['s'][i]
        note += ' %d' % i
        if o is not None and o.kind == 'S':
            f = r.choice([A.stored_ref, A.stored_ptr, A.St.ref, A.St.ptr, A.stored_cref] if REFPOL else [A.stored_ref, A.St.ref, A.St.val, A.stored_cref])
            note += ' ' + f.__name__
            if f is A.St.val:
                x = f(i)
                err = got(x, Obj('S', [x.id()]))
            elif REFPOL:
                w = m.find(o)
                x = f(i)
                if w is not None: err = '' if x is w.py else 'another Python object for the C++ object'
                elif x.id() != o.ids[0]: err = 'not the object itself'
                del x
            elif m.find(o) is None:
                x = f(i)
                err = got(x, Obj('S', [x.id()]))
                if x.id() <= n0: err += 'no copy was made'
    elif op == 'setsp':
        c, d = m.of('P'), [w for w in m.of('SD') if w.owns]
        if c:
            w = r.choice(c)
            if d and r.random() < .8:
                s = r.choice(d)
                w.py.sp = s.py
                w.obj.sp = s.obj
            else:
                w.py.sp = None
                w.obj.sp = None
    elif op == 'getsp':
        c = m.of('P')
        if c:
            w = r.choice(c)
            x = r.choice([lambda: w.py.sp, w.py.share])()
            if w.obj.sp is None: err = '' if x is None else 'object instead of nothing'
            else: err = got(x, w.obj.sp, base=True)
    elif op == 'again':
        c = m.of('E')
        if c:
            w = r.choice(c)
            err = got(r.choice([w.py.again, lambda: A.from_ref(w.py)])(), w.obj)
    elif op == 'attr':
        c = [w for w in m.vars if getattr(w, 'sub', None)]
        if c and m.vars:
            w, v = r.choice(c), r.choice(m.vars)
            w.py.other = v.py
            w.attr = v
    elif op == 'through':
        c, d = m.of('VWM'), [w for w in m.of('SD') if w.owns]
        if c and d:
            w, s = r.choice(c), r.choice(d)
            x = A.through_v(w.py, s.py)
            w1 = m.find(s.obj, 'S')
            err = '' if w1 is None or x is w1.py else 'another Python object for the C++ object'
            if getattr(w, 'sub', None) is PVs: w.kept, w.attr2 = s, s
            del x
    elif op == 'call':
        for t in 'vab':
            for i in range(8):
                o = m.store[t][i]
                if o is None: continue
                w = m.find(o)
                sub = getattr(w, 'sub', None) if w else None
                if t == 'a':
                    if sub:
                        x = A.drive_a(i, 5)
                        if x != 205: err += 'override gave %s; ' % x
                else:
                    x = A.drive_v(i, 5) if t == 'v' else A.drive_b(i, 5)
                    if t == 'v': want = 105 if sub is PV else 405 if sub is PM else 7 if o.kind == 'W' else 8 if o.kind == 'M' else 6
                    else: want = 305 if sub is PB else 505 if sub is PM else 18 if o.kind == 'M' else 15
                    if x != want: err += 'call gave %s instead of %s; ' % (x, want)
    elif op == 'throw':
        c = [w for w in m.of('SPV') if w.owns]
        if c:
            w = r.choice(c)
            try: getattr(A, 'throwing_' + ST[w.obj.kind])(w.py, w.py, w.py)
            except RuntimeError as e: pass
            else: err = 'no exception'
    elif op == 'nodel':
        j = r.randrange(3)
        xs = [N.N.one(j) for _ in range(4)]
        if [x.id() for x in xs] != [NODEL[j]] * 4: err = 'wrong object'
        del xs
    elif op == 'iop':
        c = m.of('S')
        if c:
            w = r.choice(c)
            q = w.py
            v0 = w.py.v
            q += 3
            if w.py.v != v0 + 3: err = 'object not changed'
            del q
            x = w.py + 4
            err += got(x, Obj('S', [x.id()])) if x.id() > n0 else 'no new object'
    elif op == 'assign':
        c = m.of('S')
        if len(c) > 1:
            a, b = r.choice(c), r.choice(c)
            a.py.assign(b.py)
            err = ident(a) + ident(b)
    elif op == 'setinner':
        c, d = m.of('P'), m.of('S')
        if c and d:
            r.choice(c).py.inner = r.choice(d).py
    elif op == 'alias':
        if m.vars: m.vars.append(r.choice(m.vars))
    elif op == 'cast':
        c = m.of('D')
        if c:
            w = r.choice(c)
            x = A.bycref_s(w.py)
            if x != w.obj.ids[0] or w.py.id2() != w.obj.ids[1]: err = 'wrong base object'
    elif op == 'fail':
        for f in (lambda: A.byref_s(None), lambda: A.put_s(1, 5), lambda: N.S('x'), lambda: N.A(3), lambda: N.N()):
            try: f()
            except (TypeError, ValueError): pass
            else: err += 'accepted; '
    elif op == 'gc': gc.collect()
    w = v = s = x = None
    m.settle()
    if any(getattr(w, 'kept', None) for w in m.vars) or op in ('attr', 'drop', 'gc'): gc.collect()
    f, n, l = life()
    # objects kept as attributes of Python objects
    want = m.live() | set(NODEL) | kept_ids()
    hist.append(note)
    if f: err += f
    if l != want: err += ' alive but owned by nobody: %s; destroyed although owned: %s' % (sorted(l - want)[:6], sorted(want - l)[:6])
    for w in m.live_wrappers():
        if not err: err = ident(w)
    return '' if not err else 'after %s: %s' % (hist[-12:], err)
def kept_ids():
    out = set()
    for w in m.live_wrappers():
        s = getattr(w, 'kept', None)
        if s: out |= set(s.obj.ids)
    return out
bad = False
for k in range(STEPS):
    res = t('history step %d' % k, lambda: step(k), ret='')
    if res != '': 
        bad = True
        break
if not bad:
    m.vars.clear()
    gc.collect()
    for tt in 'svaepb':
        for i in range(8): getattr(A, 'drop_' + tt)(i)
        m.store[tt] = [None] * 8
    gc.collect()
    t('nothing is left at the end', lambda: (life()[0], sorted(life()[2] - set(NODEL))), ret=('', []))
    t('objects were created', lambda: life()[1] > 10, ret=True)
with open(JOURNAL + '.life', 'w') as _f: json.dump([life()[1], len(hist)], _f)
m = None
'''

POL = '''+default_static_pointer_return_value_policy pybind11::return_value_policy::reference
+default_static_lvalue_reference_return_value_policy pybind11::return_value_policy::reference
+default_member_pointer_return_value_policy pybind11::return_value_policy::reference_internal
+default_member_lvalue_reference_return_value_policy pybind11::return_value_policy::reference_internal
'''


def ASAN_RT(): return sh([CXX18, '-print-file-name=libclang_rt.asan-x86_64.so'], 60)[1].strip()


def build_asan(ctx):
    """the generated module and the workload under AddressSanitizer and UndefinedBehaviorSanitizer"""
    fl = [CXX18] + CFLAGS + ['-g1', '-fsanitize=address,undefined', '-fno-sanitize=vptr,function', '-fno-sanitize-recover=undefined', '-shared-libasan', '-I' + str(ctx.wd / 'src'), '-I' + str(REPO / 'source')]
    (ctx.wd / 'so').mkdir(exist_ok=True)
    srcs = [ctx.wd / 'out' / f for f in ctx.sources('mod', 'out')] + [ctx.wd / 'src' / 'impl.cpp', SUPPORT / 'vt_support.cpp']

    def one(s): return s, sh(fl + ['-c', str(s), '-o', str(ctx.wd / 'so' / (s.name + '.o'))], timeout=600)
    with ThreadPoolExecutor(4) as ex: res = list(ex.map(one, srcs))
    bad = [(s.name, r[2][:3000]) for s, r in res if r[0] != 0]
    if bad: return bad
    rc, _, e = sh(fl + ['-shared'] + [str(ctx.wd / 'so' / (s.name + '.o')) for s in srcs] + ['-o', str(ctx.wd / 'so' / 'mod.so')], timeout=600)
    return [('link', e[:3000])] if rc else []


def histories(name, nh, steps, config=None, asan=False):
    def run(ctx):
        ctx.src({**files_of({'life.hpp': HDR, 'raw_main': ''}), 'api.hpp': '#pragma once\n#include <life.hpp>\n' + api(), 'main.hpp': '#include <api.hpp>\n', 'impl.cpp': IMPL})
        rc, o, e = ctx.binder(bind=['L'], config=config)
        if not ctx.ok(rc == 0, 'binder exit', e[-1000:]): return
        env = {'MALLOC_PERTURB_': '165', 'PYTHONMALLOC': 'malloc'}
        if asan:
            bad = build_asan(ctx)
            env = {'PYTHONMALLOC': 'malloc', 'LD_PRELOAD': ASAN_RT(), 'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=66:detect_odr_violation=0', 'UBSAN_OPTIONS': 'halt_on_error=1:print_stacktrace=1'}
        else: bad = ctx.compile(extra_src=['impl.cpp'], jobs=4)
        if not ctx.ok(not bad, 'compile', lambda: f'{bad[0][0]}: {bad[0][1]}'): return
        r = random.Random(f'{ctx.check.seed}-{name}')
        for k in range(nh):
            seed = r.randrange(10**9)
            d = DPRE + f'SEED, STEPS = {seed}, {steps}\n' + DRV.replace('POLICY', str(bool(config)))
            before = len(ctx.fails)
            ctx.drive(d, name=f'h{k}', env=env)
            try: ctx.nev += json.loads((ctx.wd / f'h{k}.journal.life').read_text())[0]
            except (OSError, ValueError): pass
            for f in ctx.fails[before:]: f.label = f'history {seed}: ' + f.label
            ctx.stat('histories')
            ctx.labels[-steps:] = [f'{seed} ' + x for x in ctx.labels[-steps:]]
    return name, run


def cases(check, rng, tier):
    q = tier == 'quick'
    return [histories(f'default-{i}', 12 if q else 150, 250) for i in range(3)] + [histories(f'references-{i}', 12 if q else 150, 250, POL) for i in range(3)] + [histories('asan-default', 12 if q else 150, 250, None, True), histories('asan-references', 12 if q else 150, 250, POL, True)]


CHECK = Check('C22', 'exploration', 'conservation monitor: every C++ object has a number and reports use after death and double destruction; after every step of random histories the live objects are compared with an ownership model',
              'one observation per step of a history; non-trivial = distinct (case, step)', cases,
              assumptions=['CPython reference counting; cycles are collected explicitly'])
