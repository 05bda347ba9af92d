"""C12: layout options change the files, never the module; lists of sources and modules are exact."""
import random, re, shutil
from ..core import Check
from ..scen import DPRE, files_of, seeds, nworlds
from ..world import World, PRELUDE
from .. import snap

SIZES = ['0', '1', '7', '300', '1500', '5000', '16384', '1000000000']
FLAGS = ['--flat', '--annotate-includes', '--annotate-functions', '--skip-line-number', '--v', '--trace']


def body_size(text): return len(text[text.index('void bind_'):])


def layout(ctx, L, drv, root, args, ref, bind, expect_mods=None, prefix_style='slash', jobs=2, config=None):
    """run one layout; returns snapshot"""
    out = f'out-{L}' if prefix_style != 'odd' else f"o ut'{L}$(x);&"
    single = '--single-file' in args
    rel = prefix_style == 'relative'
    if rel:
        (ctx.wd / out).mkdir()
        import os
        exe = ctx.check.exe
        from ..core import sh, SUPPORT
        cmd = [exe, '--root-module', root, '--prefix', out] + [x for b in (bind or []) for x in ('--bind', b)] + (['--config', str(ctx.wd / 'rel.config')] if config else []) + args + [str(ctx.wd / 'src' / 'main.hpp'), '--', '-x', 'c++', '-std=c++14', '-I' + str(ctx.wd / 'src'), '-isystem', str(SUPPORT)]
        if config: (ctx.wd / 'rel.config').write_text(config)
        rc, o, e = sh(cmd, cwd=ctx.wd)
        ctx.stat('binder_runs')
    else: rc, o, e = ctx.binder(root=root, out=out, args=args, bind=bind, sep=prefix_style == 'slash', config=config)
    if not ctx.ok(rc == 0, f'{L}: binder exit', lambda: f'rc={rc} {e[-1500:]}'): return None
    written = sorted(str(p.relative_to(ctx.wd / out)) for p in (ctx.wd / out).rglob('*') if p.is_file())
    cpps = [f for f in written if f.endswith('.cpp')]
    if single:
        ctx.eq(written, [root + '.cpp'], f'{L}: one file')
        files = [root + '.cpp']
        text = (ctx.wd / out / (root + '.cpp')).read_text()
        mods = None
    else:
        src = (ctx.wd / out / (root + '.sources')).read_text()
        files = [l for l in src.split('\n') if l]
        ctx.eq(sorted(files), sorted(cpps), f'{L}: list of sources is what was written')
        ctx.eq(len(files), len(set(files)), f'{L}: each source is listed once')
        ctx.eq(files[0] if files else None, root + '.cpp', f'{L}: root file comes first')
        ctx.ok(src == '' or src.endswith('\n'), f'{L}: complete last line')
        ctx.eq([f for f in written if not f.endswith('.cpp')], sorted([root + '.modules', root + '.sources']), f'{L}: nothing else is written')
        mods = (ctx.wd / out / (root + '.modules')).read_text().split()
        if '--flat' in args: ctx.eq([f for f in cpps if '/' in f], [], f'{L}: flat')
        names = [re.findall(r'^void (bind_\w+)\(', (ctx.wd / out / f).read_text(), re.M) for f in files[1:]]
        ctx.ok(all(len(n) == 1 for n in names) and len({n[0] for n in names if n}) == len(names), f'{L}: each source has its own bind function', lambda: f'{names}')
        ctx.stat('files_listed', len(files))
    if ref.get('build', True) is False: return None
    bad = ctx.compile(root=root, out=out, so='so-' + L, files=files, unity=ref.get('unity', True), jobs=jobs)
    if not ctx.ok(not bad, f'{L}: compiles', lambda: f'{bad[0]}'): return None
    n0 = len(ctx.fails)
    ctx.drive(re.sub(r'T\("C\d\d", ', 'T(None, ', drv) + snap.CODE, root=root, so='so-' + L, name='driver-' + L)
    for f in ctx.fails[n0:]: f.label = f'{L}: {f.label}'
    s = snap.load(ctx.wd / f'driver-{L}.journal.snap')
    if not ctx.ok(s is not None, f'{L}: surface recorded'): return None
    if mods is not None:
        want = sorted(m.replace('nonlocal_', 'nonlocal').replace('global_', 'global') for m in snap.submodules(s))
        ctx.eq(sorted(mods), want, f'{L}: list of modules is what the module has')
    if ref.get('snap') is None: ref['snap'] = s
    else:
        d = snap.diff(ref['snap'], s)
        ctx.ok(not d, f'{L}: same surface as the default layout', lambda: '\n'.join(d[:5]))
        ctx.stat('surface_entries_compared', len(s))
    shutil.rmtree(ctx.wd / ('so-' + L), ignore_errors=True)
    return s


def world_case(s, tier):
    def run(ctx):
        r = random.Random(f'c12-{s}')
        w = World(r, feats=['nested', 'hidden', 'virtual'], ns=r.randint(2, 6), headers=r.randint(3, 10), classes=r.randint(3, 6), enums=r.randint(1, 4), functions=r.randint(5, 12))
        ctx.src(w.files())
        drv = PRELUDE + w.driver()
        ctx.sample = {'case': ctx.name, 'headers': [h['path'] for h in w.headers]}
        ref = {}
        layout(ctx, 'default', drv, 'mod', [], ref, [''])
        sizes = {}
        combos = [('max-' + z, ['--max-file-size', z]) for z in r.sample(SIZES, 3)] + [('single', ['--single-file']), ('flat', ['--flat', '--max-file-size', r.choice(SIZES)])]
        for k in range(2 if tier == 'quick' else 6):
            fl = r.sample(FLAGS, r.randint(1, 4)) + r.choice([[], ['--max-file-size', r.choice(SIZES)], ['--single-file']])
            combos.append((f'mix{k}', fl))
        for L, a in combos: layout(ctx, L, drv, 'mod', a, ref, [''], prefix_style=r.choice(['slash', 'slash', 'none', 'odd', 'relative']))
        # sizes of the files: no file is larger than the limit plus one binding
        one = {}
        for z in ['1', '400', '2000', '100000000']:
            rc, o, e = ctx.binder(out='sz' + z, bind=[''], args=['--max-file-size', z])
            fs = ctx.sources(out='sz' + z)[1:]
            b = [body_size((ctx.wd / ('sz' + z) / f).read_text()) for f in fs]
            one[z] = b
            if z != '1': ctx.ok(max(b) <= int(z) + max(one['1']) + 200, f'size {z}: no file exceeds the limit by more than one binding', lambda: f'{max(b)} > {z} + {max(one["1"])}')
        ctx.ok(len(one['1']) >= len(one['400']) >= len(one['2000']) >= len(one['100000000']), 'number of files falls with the limit', lambda: str({k: len(v) for k, v in one.items()}))
    return f'world-{s}', run


NAMES = {'a/b.hpp': 'namespace n1 { inline int ab() { return 1; } }', 'a_b.hpp': 'namespace n1 { inline int a_b() { return 2; } }', 'a/b_1.hpp': 'namespace n2 { inline int ab1() { return 3; } }', 'a.b.hpp': 'namespace n1 { inline int adotb() { return 4; } }', 'ab.hpp': 'namespace n2 { inline int ab_() { return 5; } }', 'a-b.hpp': 'namespace n1 { inline int aminusb() { return 6; } }',
         'mod.hpp': 'namespace n2 { inline int modf() { return 7; } struct Mod { int v = 7; }; }', 'mod_1.hpp': 'inline int mod1() { return 8; } namespace n1 { struct X1 { int v = 81; }; } inline int mod1b() { return 82; }', 'mod_0.hpp': 'namespace n1 { inline int mod0() { return 83; } }', 'a/b.h': 'namespace n2 { inline int abh() { return 9; } }', 'a/b.hh': 'namespace n2 { inline int abhh() { return 10; } }', 'a/b': 'namespace n1 { inline int abnone() { return 11; } }', 'h.hpp.hpp': 'namespace n1 { inline int hh() { return 12; } }', 'a+b.hpp': 'namespace n1 { inline int aplusb() { return 13; } }', 'A/B.hpp': 'namespace n1 { inline int AB() { return 14; } }',
         'a/b_1_1.hpp': 'namespace n1 { inline int ab11() { return 15; } }', 'main_.hpp': 'inline int mn() { return 16; }', 'a__b.hpp': 'namespace n1 { inline int a__b() { return 17; } }', 'main/x.hpp': 'namespace n1 { namespace deep { namespace er { inline int x() { return 18; } } } }', 'PyInit_mod.hpp': 'namespace n1 { inline int pi() { return 19; } }', 'bind.hpp': 'namespace n2 { inline int bind_f() { return 20; } }'}
NAMES_D = r'''
a, b = M.n1, M.n2
t('all of it', lambda: (a.ab(), a.a_b(), b.ab1(), a.adotb(), b.ab_(), a.aminusb(), b.modf(), b.Mod().v, M.mod1(), a.X1().v, M.mod1b(), a.mod0(), b.abh(), b.abhh(), a.abnone(), a.hh(), a.aplusb(), a.AB(), a.ab11(), M.mn(), a.a__b(), a.deep.er.x(), a.pi(), b.bind_f()), ret=(1, 2, 3, 4, 5, 6, 7, 7, 8, 81, 82, 83, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20))
'''


def names_case(k):
    def run(ctx):
        r = random.Random(f'names-{k}')
        ks = list(NAMES)
        r.shuffle(ks)
        ctx.src(files_of({n: NAMES[n] for n in ks}))
        ref = {}
        for L, a in [('default', []), ('one', ['--max-file-size', '1']), ('flat', ['--flat', '--max-file-size', '1']), ('single', ['--single-file', '--max-file-size', '1'])]:
            ref['unity'] = L != 'one' or k > 0
            layout(ctx, L, DPRE + NAMES_D, 'mod', a, ref, [''], jobs=4)
        ref2 = {}
        for root in ['n1', 'a', 'mod_1'] if k else ['a_b', 'n2', 'main_']:
            layout(ctx, 'root-' + root, DPRE + NAMES_D, root, [], {}, [''], jobs=4)
    return f'names-{k}', run


INTER = {'i.hpp': ''.join(f'namespace {"x" if k % 2 else "y::z" if k % 3 else "y"} {{ inline int f{k}(int a = {k}) {{ return a; }} struct S{k} {{ int v = {k}; struct N {{ int w = {k}; }}; }}; enum E{k} {{ e{k} = {k} }}; }}\n'.replace('namespace y::z {', 'namespace y { namespace z {').replace('}\n', '}}\n' if (k % 2 == 0 and k % 3) else '}\n') for k in range(14)) + 'namespace only { namespace inner_ { namespace leaf { inline int g() { return 1; } } } } namespace unused { struct P; } namespace skipme { inline int h() { return 1; } } inline int glob() { return 1; }'}
INTER_D = 'import types\n' + ''.join(f'm = M.{"x" if k % 2 else "y.z" if k % 3 else "y"}\nt("{k}", lambda: (m.f{k}(), m.f{k}(99), m.S{k}().v, m.S{k}.N().w, int(m.e{k})), ret=({k}, 99, {k}, {k}, {k}))\n' for k in range(14)) + 't("modules", lambda: sorted(k for k in dir(M) if isinstance(getattr(M, k), types.ModuleType)), ret=["only", "x", "y"])\nt("leaf", lambda: M.only.inner_.leaf.g(), ret=1)\n'


def inter(ctx):
    ctx.src(files_of(INTER))
    ref = {}
    cfg = '+namespace \n-namespace skipme\n'
    for L, a in [('default', []), ('one', ['--max-file-size', '1']), ('big', ['--max-file-size', '99999999']), ('flat', ['--flat']), ('single', ['--single-file']), ('annotated', ['--annotate-includes', '--annotate-functions', '--skip-line-number']), ('traced', ['--trace'])]:
        layout(ctx, L, DPRE + INTER_D, 'mod', a, ref, None, config=cfg, jobs=4)
        if L == 'traced':
            log = (ctx.wd / 'driver-traced.log').read_text()
            tr = re.findall(r'^B(\d+)_\[(.*)\]$', log, re.M)
            ctx.ok(len(tr) >= 40 and len({x for x, _ in tr}) == len(tr), 'trace lines are unique', lambda: f'{len(tr)} {tr[:5]}')
    ctx.eq((ctx.wd / 'out-default' / 'mod.modules').read_text().split(), ['only', 'only.inner_', 'only.inner_.leaf', 'x', 'y', 'y.z'], 'modules list')
    ctx.sample = {'case': 'interleaved', 'header': INTER['i.hpp'][:800]}


def empty(ctx):
    """nothing to bind: an importable empty module"""
    ctx.src({'main.hpp': '#include <e.hpp>\n', 'e.hpp': 'namespace q { inline int f() { return 1; } }\n'})
    for L, a in [('default', []), ('flat', ['--flat']), ('single', ['--single-file'])]:
        s = layout(ctx, L, DPRE + 't("empty", lambda: [x for x in dir(M) if not x.startswith("__")], ret=[])\n', 'mod', a, {}, None, config='+namespace nothing_here\n')


def cases(check, rng, tier):
    return [('interleaved', inter), ('empty', empty)] + [names_case(k) for k in range(2)] + [world_case(s, tier) for s in seeds(rng, nworlds(tier, 3, 60))]


CHECK = Check('C12', 'exploration', 'the same project generated in many layouts: recorded surface, behaviour and file lists of each layout are compared',
              'one observation per comparison of a layout with the file system, the imported module or the default layout, plus the behaviour observations repeated in each layout; non-trivial = a distinct (project, layout, aspect)', cases,
              assumptions=['pybind11 2.11 and clang 14 of this sandbox'])
