"""Building blocks for the cases of the checks."""
import random
from .world import World, PRELUDE

PRE = '#pragma once\n#include <vt/vt.hpp>\n#include <cstddef>\n#include <memory>\n#include <string>\n'
DPRE = PRELUDE + '''
def t(label, fn, ret=ANY, ev=None, exc=None, norm=None): return T(None, label, fn, ret=ret, ev=ev, exc=exc, norm=norm)
def names(o): return [n for n in own(o) if not n.startswith('__') and n != 'assign']
def setall(o, **kw):
    for k, v in kw.items(): setattr(o, k, v)
    return o
'''


def files_of(src):
    """src: header text, or {name: text}; every header gets the instrumentation, main.hpp includes them in order"""
    if isinstance(src, str): src = {'a.hpp': src}
    fs = {}
    for n, s in src.items(): fs[n] = s if n == 'main.hpp' or n.startswith('raw') or isinstance(s, bytes) or n.endswith('.cpp') else PRE + s
    if 'main.hpp' not in fs: fs['main.hpp'] = ''.join(f'#include <{n}>\n' for n in fs if not n.endswith('.cpp'))
    return fs


def scen(name, src, drv, config=None, bind=('',), **kw):
    """a hand-written project: header(s), driver over the imported module"""
    def run(ctx): ctx.project(files_of(src), DPRE + drv if drv is not None else None, config=config, bind=list(bind) if bind else None, **kw)
    return name, run


def worlds(prefix, seeds, feats=('virtual', 'hidden', 'nested', 'doc'), after=None, **sizes):
    """random projects with a model of what the module has to be"""
    def mk(s):
        def run(ctx):
            r = random.Random(f'{prefix}-{s}')
            fe = feats(s) if callable(feats) else feats
            sz = {'ns': r.randint(1, 5), 'headers': r.randint(1, 5), 'classes': r.randint(2, 6), 'enums': r.randint(1, 4), 'functions': r.randint(4, 12)}
            sz.update({k: v(r) if callable(v) else v for k, v in sizes.items()})
            w = World(r, feats=fe, **sz)
            fs = w.files()
            d = PRELUDE + w.driver()
            if ctx.project(fs, d, bind=['']) and after: after(ctx, w)
        return f'{prefix}-{s}', run
    return [mk(s) for s in seeds]


def seeds(rng, n):
    return [rng.randrange(10**9) for _ in range(n)]


def nworlds(tier, quick, thorough): return quick if tier == 'quick' else thorough
