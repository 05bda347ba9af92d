"""Snapshot of everything an imported module offers (names, kinds, signatures, bases, enum values, doc strings)."""
import json

CODE = r'''
import types as _ty, re as _re
def snapshot(root):
    out, seen = {}, set()
    def clean(s): return _re.sub(r'0x[0-9a-f]+', '0x', s) if isinstance(s, str) else s
    def cls(c, path):
        out[path] = ['class', [b.__module__ + '.' + b.__qualname__ for b in c.__bases__ if b.__name__ != 'pybind11_object'], clean(c.__doc__)]
        if hasattr(c, '__members__'): out[path + '#members'] = [(k, str(v.value)) for k, v in c.__members__.items()]
        for k in sorted(c.__dict__):
            v = c.__dict__[k]
            if k in ('__doc__', '__module__', '__members__', '__entries', '__dict__', '__weakref__', '__init__') and k != '__init__': continue
            p = path + '.' + k
            if isinstance(v, type): cls(v, p)
            elif isinstance(v, property): out[p] = ['property', v.fset is not None, clean(v.__doc__)]
            else:
                w = getattr(c, k)
                out[p] = [type(v).__name__, clean(getattr(w, '__doc__', None)) if callable(w) or isinstance(v, staticmethod) else clean(repr(w))]
    def mod(m, path):
        if id(m) in seen: return
        seen.add(id(m))
        out[path] = ['module', clean(m.__doc__)]
        for k in sorted(m.__dict__):
            if k.startswith('__') and k.endswith('__'): continue
            v, p = m.__dict__[k], path + '.' + k
            if isinstance(v, _ty.ModuleType): mod(v, p)
            elif isinstance(v, type): cls(v, p)
            else: out[p] = [type(v).__name__, clean(getattr(v, '__doc__', None)) if callable(v) else clean(repr(v))]
    mod(root, '')
    return out
with open(JOURNAL + '.snap', 'w') as _f: json.dump(snapshot(M), _f)
'''


def load(path):
    try: return json.load(open(path))
    except Exception: return None


def submodules(s): return sorted(k[1:] for k, v in s.items() if v[0] == 'module' and k)


def diff(a, b):
    r = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k): r.append(f'{k}: {a.get(k)!r} / {b.get(k)!r}')
    return r
