"""Runtime of the generated drivers: runs in the process that imports a generated module.

usage: driver.py ROOT_MODULE SO_DIR JOURNAL     (driver.py does `from driver_rt import *` first)
Every observation T(...) is journalled before it is made, so a crash identifies the operation in flight.
"""
import ctypes, gc, importlib, json, os, sys, traceback

ROOT, SO_DIR, JOURNAL = sys.argv[1:4]
_j = open(JOURNAL, 'w')
_n = 0


def _w(**kw):
    _j.write(json.dumps(kw) + '\n')
    _j.flush()


sys.path.insert(0, SO_DIR)
sys.dont_write_bytecode = True
_w(k='import')
try:
    M = importlib.import_module(ROOT)
except BaseException as e:
    _w(k='import_error', detail=f'{type(e).__name__}: {e}')
    sys.exit(0)
_w(k='imported')
try:
    _take = ctypes.CDLL(M.__file__).vt_take
    _take.restype = ctypes.c_char_p
except AttributeError:
    _take = lambda: b''


def take():
    return [l for l in _take().decode('utf-8', 'replace').split('\n') if l]


IMPORT_EVENTS = take()
ANY = object()


def ns(path):
    """module for C++ namespace 'a::b'"""
    m = M
    for p in path.split('::') if path else []:
        m = getattr(m, p + '_' if p in ('nonlocal', 'global') else p)
    return m


def T(prop, label, fn, ret=ANY, ev=None, exc=None, norm=None):
    """One observation. fn() is run; its result, the C++ events it caused and its exception are compared."""
    global _n
    _n += 1
    _w(k='S', i=_n, p=prop, l=label)
    take()
    got, err = None, None
    try:
        got = fn()
        if norm: got = norm(got)
    except Exception as e:
        err = e
    evs = take()
    bad = None
    if exc is not None:
        if err is None: bad = f'expected {exc}, got result {got!r}'
        elif exc is not True and type(err).__name__ not in (exc if isinstance(exc, tuple) else (exc,)): bad = f'expected {exc}, got {type(err).__name__}: {str(err)[:300]}'
    elif err is not None: bad = f'{type(err).__name__}: {str(err)[:600]}'
    elif ret is not ANY and not (type(got) is type(ret) and got == ret or (got == ret and not isinstance(ret, (bool, int, float, str)))): bad = f'expected {ret!r}, got {got!r}'
    if bad is None and ev is not None and evs != list(ev): bad = f'expected events {list(ev)!r}, observed {evs!r}'
    elif bad is not None and ev is not None: bad += f' (events {evs!r})'
    _w(k='E', i=_n, ok=bad is None, nev=len(evs), d=bad)
    return got


def public(o):
    return sorted(n for n in dir(o) if not n.startswith('__'))


def own(o):
    """names defined by the class itself"""
    return sorted(o.__dict__)


def done():
    gc.collect()
    _w(k='done')
    _j.close()
