"""C19: exit status zero means that everything was read and written: every file operation of a run is made to fail in turn."""
import os, random
from ..core import Check, io_log, read_tree, write_tree, sh, ENV
from ..scen import PRE, seeds, nworlds

HEADERS = {
    'top.hpp': 'namespace t { struct A { int a = 1; A(int) {} virtual ~A() {} virtual int v(int x) { return x; } }; inline int fa(A &) { return 1; } enum class E { p, q }; }\n',
    'sub/mid.hpp': '#include <top.hpp>\nnamespace s { struct B : t::A { B() : t::A(1) {} int m() { return 2; } }; inline B mb() { return B(); } }\nnamespace s2 { struct C { int x; }; }\n',
    'sub/deep/er/low.hpp': '#include <sub/mid.hpp>\nnamespace z { inline int fz(s::B const &) { return 1; } struct Z { int z; }; }\n',
}


def project(ctx, extra=None):
    fs = {k: PRE + v for k, v in HEADERS.items()}
    fs['main.hpp'] = '#include <sub/deep/er/low.hpp>\n#include <sub/mid.hpp>\n#include <top.hpp>\n'
    fs.update(extra or {})
    ctx.src(fs)


def run(ctx, out, fault=None, **kw):
    log = ctx.wd / (out.replace('/', '_') + '.iolog')
    env = {'LD_PRELOAD': str(ctx.check.shim), 'VT_IO_LOG': str(log)}
    if fault: env['VT_IO_FAULT'] = fault
    kw.setdefault('bind', [''])
    rc, o, e = ctx.binder(out=out, env=env, **kw)
    ev, f = io_log(log)
    ctx.nev += len(ev)
    return rc, o, e, ev, f


def judge(ctx, label, rc, o, e, out, clean):
    """rc 0 -> complete files; otherwise a message"""
    got = {k: v for k, v in read_tree(ctx.wd / out).items()}
    if rc == 0:
        bad = [k for k in clean if got.get(k) != clean[k]]
        ctx.ok(not bad, label, lambda: f'exit status 0, but {bad} are missing or incomplete: ' + str({k: None if k not in got else len(got[k]) for k in bad}) + f' instead of {[len(clean[k]) for k in bad]}')
    else: ctx.ok(bool((e + o).strip()) and ('rror' in e + o or 'what()' in e), label, lambda: f'exit status {rc} without a message: {o[-300:]} {e[-300:]}')


def faults(ctx, args, name):
    project(ctx)
    rc, o, e, ev, _ = run(ctx, 'clean', args=args)
    if not ctx.ok(rc == 0 and len(ev) > 2, 'undisturbed run', f'rc={rc}, {len(ev)} operations: {e[-500:]}'): return
    clean = read_tree(ctx.wd / 'clean')
    r = random.Random(f'{ctx.check.seed}')
    acts = ['28', '5', '13', 'short'] if ctx.check.tier == 'thorough' else None
    single = '--single-file' in args
    for k, (op, path) in enumerate(ev, 1):
        for a in acts or ([r.choice(['28', '5', '13'])] + (['short'] if op == 'write' else [])):
            out = f'o{k}_{a}'
            os.makedirs(ctx.wd / 'f' / out, exist_ok=True)
            # the prefix is part of what --single-file writes: every run goes to the same place
            tgt = 'cur' + out if not single else 'clean'
            if single: sh(['rm', '-rf', ctx.wd / 'clean'])
            rc, o, e, ev2, f = run(ctx, tgt, fault=f'{k}:{a}', args=args)
            if f is None: continue
            judge(ctx, f'{name}: {op} {os.path.relpath(path, ctx.wd / "clean")} #{k} fails with {a}', rc, o, e, tgt, clean)
            ctx.stat('faults_injected')
    # a second run over existing files that differ
    rc, o, e, ev, _ = run(ctx, 'clean', args=args)
    for k in range(1, 400):
        if single: break
        write_tree(ctx.wd / f're{k}', {n: b[:len(b) // 2] + b'// stale' for n, b in clean.items()})
        rc, o, e, ev2, f = run(ctx, f're{k}', fault=f'{k}:28', args=args)
        if f is None: break
        judge(ctx, f'{name}: over old files, operation #{k} {f[0]} fails', rc, o, e, f're{k}', clean)
        ctx.stat('faults_injected')


def obstacles(ctx):
    """file system states in which a file can not be written, without any interposition"""
    project(ctx)
    rc, o, e = ctx.binder(out='clean', bind=[''])
    clean = read_tree(ctx.wd / 'clean')
    if not ctx.eq(rc, 0, 'undisturbed'): return
    for k, f in enumerate(sorted(clean)):
        for kind in ('directory', 'full', 'dangling', 'file as directory', 'size'):
            out = f'b{k}_{kind.replace(" ", "_")}'
            p = ctx.wd / out / f
            wrap = ()
            if kind == 'directory': p.mkdir(parents=True)
            elif kind == 'full':
                if not f.startswith('mod.'): continue  # the old content is read first
                p.parent.mkdir(parents=True)
                p.symlink_to('/dev/full')
            elif kind == 'dangling':
                p.parent.mkdir(parents=True)
                p.symlink_to(ctx.wd / 'nowhere' / 'file')
            elif kind == 'file as directory':
                if '/' not in f: continue
                p.parent.parent.mkdir(parents=True)
                p.parent.write_text('')
            elif kind == 'size':
                if k: continue
                (ctx.wd / out).mkdir()
                wrap = ('/usr/bin/python3', '-c', 'import os,resource,signal,sys; signal.signal(signal.SIGXFSZ, signal.SIG_IGN); resource.setrlimit(resource.RLIMIT_FSIZE, (1000, 1000)); os.execv(sys.argv[1], sys.argv[1:])')
            rc, o, e = ctx.binder(out=out, bind=[''], wrap=wrap)
            ctx.ok(rc != 0 and ('rror' in e + o or 'what()' in e), f'{f}: {kind}', lambda: f'exit status {rc} although {f} can not be written ({kind}); message: {e[-300:]}')
            ctx.stat('obstacles')


BADSRC = {
    'syntax error': 'struct { int', 'missing header': '#include <no/such/header.hpp>\nstruct A {};', 'error directive': '#error stop\nstruct A {};', 'undeclared type': 'Missing f(int);', 'redefinition': 'struct A {}; struct A {};',
    'failing instantiation': 'template <typename T> struct V { typename T::nested n; }; inline int f() { return sizeof(V<int>); }', 'static_assert': 'static_assert(sizeof(int) == 1, "no");', 'error at the end': 'struct Good { int x; };\ninline int g() { return 1; }\nint tail(', 'unbalanced namespace': 'namespace a { struct B {};', 'bad member': 'struct A { int f() { return nothing; } };', 'abstract object': 'struct A { virtual void f() = 0; }; inline A g() { return A(); }', 'incomplete member': 'struct I; struct A { I i; };',
}


def bad_inputs(ctx):
    project(ctx, {f'bad{i}/a.hpp': s + '\n' for i, s in enumerate(BADSRC.values())})
    for i, k in enumerate(BADSRC):
        d = ctx.wd / 'src' / f'bad{i}'
        (d / 'main.hpp').write_text(f'#include <top.hpp>\n#include <bad{i}/a.hpp>\n#include <sub/mid.hpp>\n')
        for args in ([], ['--single-file'], ['--flat', '--max-file-size', '100']):
            rc, o, e = ctx.binder(main=f'bad{i}/main.hpp', out=f'bo{i}', bind=[''], args=args)
            ctx.ok(rc != 0 and 'error' in e + o, f'{k} {args}', lambda: f'exit status {rc}, message {e[-300:]}')
    for k, text in {'warnings only': '#warning careful\ninline int w(int unused) { int x; return 1; }', 'nothing to bind': '', 'only comments': '// nothing\n'}.items():
        (ctx.wd / 'src/ok.hpp').write_text('#include <okay.hpp>\n')
        (ctx.wd / 'src/okay.hpp').write_text(text + '\n')
        rc, o, e = ctx.binder(main='ok.hpp', out='ok' + k.replace(' ', '_'), bind=[''], clang=['-Weverything'])
        ctx.eq(rc, 0, k)
        for f in ctx.sources(out='ok' + k.replace(' ', '_')) or ['?']: ctx.ok((ctx.wd / ('ok' + k.replace(' ', '_')) / f).exists(), k + ' file ' + f)
    rc, o, e = ctx.binder(main='nothere.hpp', out='nh', bind=[''])
    ctx.ok(rc != 0 and 'rror' in e + o, 'missing main file', lambda: f'{rc}: {e[-300:]}')
    (ctx.wd / 'src/adir.hpp').mkdir()
    rc, o, e = ctx.binder(main='adir.hpp', out='ad', bind=[''])
    ctx.ok(rc != 0 and 'rror' in e + o, 'directory as main file', lambda: f'{rc}: {e[-300:]}')
    for k, a in {'missing configuration': str(ctx.wd / 'no.config'), 'directory as configuration': str(ctx.wd), 'configuration under a file': str(ctx.wd / 'src/top.hpp/x.config')}.items():
        rc, o, e = ctx.binder(out='cf', bind=[''], args=['--config', a])
        ctx.ok(rc != 0 and bool((e + o).strip()), k, lambda: f'exit status {rc}: {e[-300:]}')
    for k, a in {'unknown option': ['--no-such-option'], 'number expected': ['--max-file-size', 'many'], 'value missing': ['--max-file-size']}.items():
        rc, o, e = ctx.binder(out='op', bind=[''], args=a)
        ctx.ok(rc != 0 and bool((e + o).strip()), k, lambda: f'exit status {rc}: {e[-300:]}')
    rc, o, e = sh([ctx.check.exe, '--prefix', ctx.wd / 'nx', ctx.wd / 'src/main.hpp', '--', '-x', 'c++', f'-I{ctx.wd}/src'], cwd=ctx.wd)
    ctx.ok(rc != 0 and bool((e + o).strip()), 'no root module', lambda: f'exit status {rc}: {e[-300:]}')
    # compilation databases that know the file, that do not, and that are none
    import json
    from ..core import SUPPORT
    M = str(ctx.wd / 'src/main.hpp')
    cc = lambda d, *f: json.dumps([{'directory': str(ctx.wd), 'file': x, 'arguments': ['clang++', '-x', 'c++', '-std=c++14', f'-I{ctx.wd}/src', '-isystem', str(SUPPORT), '-c', x]} for x in f])
    for k, (text, files, good) in {'knows the file': (cc(0, M), [M], True), 'lacks the file': ('[]', [M], False), 'knows another file': (cc(0, str(ctx.wd / 'src/else.cpp')), [M], None), 'is broken': ('[{', [M], False), 'is empty': ('', [M], False), 'lacks one of two': (cc(0, M), [M, str(ctx.wd / 'src/nothere.hpp')], False)}.items():
        d = ctx.wd / 'db' / k.replace(' ', '_')
        d.mkdir(parents=True)
        (d / 'compile_commands.json').write_text(text)
        out = ctx.wd / ('dbo_' + k.replace(' ', '_'))
        out.mkdir()
        rc, o, e = sh([ctx.check.exe, '-p', d, '--root-module', 'mod', '--prefix', out, '--bind', ''] + files, cwd=ctx.wd)
        if good is None: good = rc == 0
        made = read_tree(out)
        if good: ctx.ok(rc == 0 and {'mod.cpp', 'mod.sources', 'mod.modules'} <= set(made) and len(made) > 3, f'compilation database {k}', lambda: f'exit status {rc}, {sorted(made)}: {(e + o)[-300:]}')
        else: ctx.ok(rc != 0 and bool((e + o).strip()), f'compilation database {k}', lambda: f'exit status {rc}, {sorted(made)}: {(e + o)[-300:]}')


PREFIXES = ['plain', 'with space', "it's", 'quo"te', '$(touch pwned)', '`touch pwned`', ';touch pwned;', '-dash', 'a&b', 'uni€', 'star*', 'new/deep/er', 'dot.dir', '~tilde', 'back\\slash', '#hash', '..x', '$HOME']


def places(ctx):
    """whatever the prefix is called and however it is given, all and only it is written"""
    project(ctx)
    from ..core import SUPPORT
    rc, o, e = ctx.binder(out='clean', bind=[''])
    clean = read_tree(ctx.wd / 'clean')
    if not ctx.eq(rc, 0, 'undisturbed'): return
    for i, p in enumerate(PREFIXES):
        for mode in ('absolute', 'relative', 'existing'):
            base = ctx.wd / 'pl' / f'{i}{mode}'
            base.mkdir(parents=True)
            out = base / p
            if mode != 'relative': out.mkdir(parents=True)
            else: out.mkdir(parents=True)
            before = {k for k in read_tree(base)}
            log = base.parent / f'{i}{mode}.log'
            rc, o, e = sh([ctx.check.exe, '--root-module', 'mod', '--prefix=' + (str(out) if mode != 'relative' else p), '--bind', '', str(ctx.wd / 'src/main.hpp'), '--', '-x', 'c++', '-std=c++14', f'-I{ctx.wd}/src', '-isystem', str(SUPPORT)], cwd=base, env={'LD_PRELOAD': str(ctx.check.shim), 'VT_IO_LOG': str(log)})
            ctx.stat('binder_runs')
            ev, _ = io_log(log)
            ctx.nev += len(ev)
            if ctx.ok(rc == 0, f'prefix {p!r} {mode}', lambda: f'exit status {rc}: {e[-400:]}'):
                got = read_tree(out)
                ctx.ok(got == clean, f'prefix {p!r} {mode}: files', lambda: f'{sorted(got)} instead of {sorted(clean)}')
            outside = [(op, f) for op, f in ev if not os.path.normpath(os.path.join(base, f)).startswith(os.path.normpath(str(out)))]
            ctx.ok(not outside, f'prefix {p!r} {mode}: containment', lambda: f'written outside {out}: {outside[:5]}')
            extra = [k for k in read_tree(base) if not k.startswith(os.path.relpath(out, base))]
            ctx.ok(not extra, f'prefix {p!r} {mode}: neighbours', lambda: f'appeared beside the prefix: {extra}')


def include_names(ctx):
    """header names that walk around or look like paths never lead outside the prefix"""
    os.makedirs(ctx.wd / 'src/inc/here', exist_ok=True)
    project(ctx, {'up.hpp': PRE + 'namespace u { struct U { int u; }; }\n', 'inc/x.hpp': PRE + 'namespace x { struct X { int x; }; }\n', 'inc/here/y.hpp': PRE + 'namespace y { struct Y { int y; }; }\n', 'dot.d/a.b.hpp': PRE + 'namespace d { struct D { int d; }; }\n'})
    (ctx.wd / 'src/m2.hpp').write_text(f'#include <inc/../up.hpp>\n#include <inc/here/../x.hpp>\n#include <../src/inc/here/y.hpp>\n#include <./dot.d/a.b.hpp>\n#include <{ctx.wd}/src/top.hpp>\n')
    for args in ([], ['--flat'], ['--single-file'], ['--max-file-size', '1']):
        out = 'in' + ''.join(args).replace('-', '')
        rc, o, e, ev, _ = run(ctx, out, main='m2.hpp', args=args)
        if not ctx.ok(rc == 0, f'exit {args}', lambda: f'{rc}: {e[-500:]}'): continue
        outside = [(op, f) for op, f in ev if not (os.path.normpath(f) + '/').startswith(str(ctx.wd / out) + '/')]
        ctx.ok(not outside and len(ev) > 2, f'containment {args}', lambda: f'{outside[:5]}')
        if '--single-file' not in args:
            for f in ctx.sources(out=out): ctx.ok(os.path.isfile(f'{ctx.wd}/{out}/{f}'), f'listed file {f} {args}', 'does not exist')


def cases(check, rng, tier):
    return [('faults', lambda c: faults(c, [], 'default')), ('faults-single', lambda c: faults(c, ['--single-file'], 'single')), ('faults-split', lambda c: faults(c, ['--max-file-size', '1'], 'split')), ('faults-flat', lambda c: faults(c, ['--flat'], 'flat')),
            ('obstacles', obstacles), ('bad-inputs', bad_inputs), ('places', places), ('include-names', include_names)]


CHECK = Check('C19', 'exploration', 'interposed file operations: a fault is injected at every operation of a run in turn; exit status, messages, files and touched paths are observed',
              'one observation per injected fault, obstacle, erroneous input or prefix (exit status against the files that are there); non-trivial = distinct (operation, fault) or input', cases, need=('plain', 'shim'),
              assumptions=['faults are injected at the C library interface (fopen, open, write, writev, close, fclose, mkdir, rename ...)', 'a faulty operation fails once'])
