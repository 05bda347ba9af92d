"""C13: the output is a function of the input: repeated runs in disturbed environments, and histories of runs, edits, damage and kills."""
import os, random, shutil
from ..core import Check, io_log, read_tree, write_tree, sh, SUPPORT
from ..scen import PRE, seeds, nworlds
from ..world import World

OLD = 10**18  # the modification time given to every file before a run

STL = {'st.hpp': PRE + r'''
#include <map>
#include <set>
#include <vector>
#include <list>
#include <functional>
#include <utility>
#include <iosfwd>
namespace s { struct A { int a = 1; }; struct B : A { int b = 2; }; enum class E { p, q };
template <typename T, typename U = int> struct V { T t{}; U u{}; V() {} V(T a) : t(a) {} T get() const { return t; } U operator+(V const &o) const { return u; } struct In { T z{}; }; enum Q { q1, q2 }; };
inline std::vector<A> va() { return {}; } inline std::vector<std::vector<int>> vv() { return {}; } inline std::map<int, B> mb() { return {}; } inline std::map<std::string, std::vector<B>> mv() { return {}; } inline std::set<int> si(std::set<std::string> const &) { return {}; }
inline V<int> v1() { return {}; } inline V<A, B> v2(V<std::string, std::vector<int>> v) { return {}; } inline V<V<int>, V<double, char>> v3() { return {}; } inline V<E, long> v4() { return {}; } inline std::pair<int, A> pr() { return {}; } inline std::function<int(A const &)> fn() { return {}; } inline std::list<A> ls() { return {}; }
template <typename T> T tf(T a) { return a; } template <typename T, int N> struct Ar { T d[N]; int n() const { return N; } }; inline int use() { return tf(1) + (int)tf(2.5) + tf<char>('c') + (int)tf<long>(3); } inline Ar<int, 3> a3(Ar<A, 2> x) { return {}; }
struct Ab { virtual ~Ab() {} virtual void p(V<int> const &) = 0; virtual int q(std::vector<A> &) = 0; virtual std::string r(E e = E::q, int k = 3) { return ""; } }; struct Der : Ab, A { void p(V<int> const &) override {} int q(std::vector<A> &) override { return 1; } }; struct Der2 : Der { using A::a; };
}
''', 'main.hpp': '#include <st.hpp>\n'}


def world_files(r):
    w = World(r, feats=('virtual', 'hidden', 'nested', 'doc'), ns=r.randint(2, 5), headers=r.randint(2, 5), classes=r.randint(4, 8), enums=3, functions=10)
    return w.files()


def names(fs): return [k for k in fs if k != 'main.hpp']


def binder(ctx, src, out, args=(), env=None, wrap=(), cwd=None, prefix=None, config=None):
    cmd = list(wrap) + [str(ctx.check.exe), '--root-module', 'mod', '--prefix', str(prefix or out), '--bind', '']
    if config: cmd += ['--config', str(config)]
    cmd += list(args) + [os.path.join(str(src), 'main.hpp'), '--', '-x', 'c++', '-std=c++14', f'-I{src}', '-isystem', str(SUPPORT), '-Wno-everything']
    ctx.stat('binder_runs')
    for t in (120, 400):
        rc, o, e = sh(cmd, timeout=t, env=env, cwd=cwd or ctx.wd)
        if rc != 'timeout': break
    return rc, o, e


def compare(ctx, label, ref, got):
    ctx.ok(ref == got, label, lambda: 'files differ: ' + ', '.join(f'{k}: {first_difference(ref.get(k), got.get(k))}' for k in sorted(set(ref) | set(got)) if ref.get(k) != got.get(k))[:1500])


def first_difference(a, b):
    if a is None: return 'only in the second run'
    if b is None: return 'only in the first run'
    al, bl = a.split(b'\n'), b.split(b'\n')
    for i, (x, y) in enumerate(zip(al, bl)):
        if x != y: return f'line {i + 1}: {x[:150]!r} / {y[:150]!r}'
    return f'{len(a)} bytes / {len(b)} bytes'


def environments(name, make, args=()):
    def run(ctx):
        r = random.Random(f'{ctx.check.seed}-{name}')
        fs = make(r)
        write_tree(ctx.wd / 'src', fs)
        write_tree(ctx.wd / 'other place/with a much longer name/src', fs)
        os.symlink(ctx.wd / 'src', ctx.wd / 'link')
        out = ctx.wd / 'out'
        out.mkdir()
        rc, o, e = binder(ctx, ctx.wd / 'src', out, args)
        if not ctx.ok(rc == 0, 'first run', lambda: e[-800:]): return
        ref = read_tree(out)
        ctx.stat('bytes_compared', sum(map(len, ref.values())))
        single = '--single-file' in args
        variants = {
            'again': {}, 'again 2': {}, 'fixed addresses': {'wrap': ('setarch', '-R')}, 'heap filled': {'env': {'MALLOC_PERTURB_': str(r.randint(1, 255)), 'GLIBC_TUNABLES': 'glibc.malloc.mmap_threshold=4096:glibc.malloc.tcache_count=0'}},
            'arenas': {'env': {'MALLOC_TOP_PAD_': str(r.randint(1, 10**6)), 'MALLOC_MMAP_THRESHOLD_': str(r.randint(1000, 50000))}}, 'environment': {'env': {'TZ': 'Asia/Tokyo', 'LC_ALL': 'C', 'LANG': 'tr_TR.UTF-8', 'USER': 'nobody', 'HOME': '/nonexistent', 'X' * 500: 'y' * 20000, 'TERM': 'xterm', 'COLUMNS': '20'}},
            'other sources directory': {'src': ctx.wd / 'other place/with a much longer name/src'}, 'sources through a link': {'src': ctx.wd / 'link'}, 'relative prefix': {'prefix': 'out', 'cwd': ctx.wd}, 'other directory': {'cwd': '/'}, 'stack': {'wrap': ('bash', '-c', 'ulimit -s 65532; exec "$@"', 'x')},
        }
        keys = list(variants)
        if ctx.check.tier == 'quick': keys = keys[:4] + r.sample(keys[4:], 3)
        for k in keys:
            kw = dict(variants[k])
            if single and 'prefix' in kw: continue
            shutil.rmtree(out)
            out.mkdir()
            if 'setarch' in kw.get('wrap', ()) and sh(['setarch', '-R', 'true'])[0] != 0: continue
            rc, o, e = binder(ctx, kw.pop('src', ctx.wd / 'src'), out, args, **kw)
            if ctx.ok(rc == 0, f'{k}: exit', lambda: e[-800:]): compare(ctx, k, ref, read_tree(out))
        if not single:
            o2 = ctx.wd / 'quite/another.place/b c'
            o2.mkdir(parents=True)
            rc, o, e = binder(ctx, ctx.wd / 'src', o2, args)
            compare(ctx, 'other output directory', ref, read_tree(o2))
            o3 = ctx.wd / 'slash'
            o3.mkdir()
            rc, o, e = binder(ctx, ctx.wd / 'src', o3, args, prefix=str(o3) + '/')
            compare(ctx, 'prefix with a slash', ref, read_tree(o3))
    return name, run


DAMAGE = ['truncate', 'half', 'append', 'flip', 'garbage', 'delete', 'empty', 'swap', 'crlf', 'nul', 'newline', 'same length']


def damage(r, p, kind, other):
    b = p.read_bytes()
    if kind == 'truncate': b = b[:r.randrange(len(b) + 1)]
    elif kind == 'half': b = b[:len(b) // 2]
    elif kind == 'append': b += b'// more\n'
    elif kind == 'flip' and b:
        i = r.randrange(len(b))
        b = b[:i] + bytes([b[i] ^ 1]) + b[i + 1:]
    elif kind == 'garbage': b = bytes(r.randrange(256) for _ in range(300))
    elif kind == 'empty': b = b''
    elif kind == 'swap': b = other.read_bytes()
    elif kind == 'crlf': b = b.replace(b'\n', b'\r\n')
    elif kind == 'nul': b = b + b'\0'
    elif kind == 'newline': b = b[:-1] if b.endswith(b'\n') else b + b'\n'
    elif kind == 'same length': b = bytes(len(b))
    if kind == 'delete': p.unlink()
    else: p.write_bytes(b)


def history(seed, steps):
    def run(ctx):
        r = random.Random(seed)
        base = world_files(r)
        hs = names(base)
        srcs = [base]
        for k in range(3):
            v = dict(srcs[-1] if r.random() < .5 else base)
            h = r.choice(hs)
            v[h] = v[h] + f'#ifndef VX_{k}\n#define VX_{k}\n' + r.choice([f'namespace vx{k} {{ inline int extra{k}(int a{k}) {{ return a{k}; }} }}\n', f'inline int extra_long_name_{k}(int a) {{ return a; }}\n', f'\n\nnamespace vy {{ struct S{k} {{ int m{k} = 1; virtual ~S{k}() {{}} virtual int z(int) {{ return 1; }} }}; }}\n', f'// nothing new {k}\n', f'namespace vz {{ enum class E{k} {{ a, b{k} }}; }}\n']) + '#endif\n'
            srcs.append(v)
        argsets = [[]] * 3 + [['--max-file-size', str(r.choice([1, 600, 3000]))], ['--flat'], ['--skip-line-number'], ['--annotate-functions']]
        S = ctx.wd / 'src'
        fresh = {}

        def expected(v, a):
            if (v, tuple(a)) not in fresh:
                o = ctx.wd / f'fresh{len(fresh)}'
                o.mkdir()
                set_src(v)
                rc, so, e = binder(ctx, S, o, a)
                fresh[(v, tuple(a))] = read_tree(o) if rc == 0 else None
                shutil.rmtree(o)
            return fresh[(v, tuple(a))]

        def set_src(v):
            shutil.rmtree(S, ignore_errors=True)
            write_tree(S, srcs[v])
        out = ctx.wd / 'out'
        out.mkdir()
        v, a, hist = 0, [], []
        for step in range(steps):
            if r.random() < .5: v = r.randrange(len(srcs))
            if r.random() < .3: a = r.choice(argsets)
            want = expected(v, a)
            if want is None:
                ctx.ok(False, 'fresh run', 'binder failed')
                return
            files = sorted(f for f in out.rglob('*') if f.is_file())
            for _ in range(r.choice([0, 0, 1, 1, 2, 4])):
                if not files: break
                f = r.choice(files)
                if not f.exists(): continue
                k = r.choice(DAMAGE)
                others = [x for x in files if x.exists()]
                damage(r, f, k, r.choice(others))
                hist.append(f'{k} {f.relative_to(out)}')
                ctx.stat('damages')
            set_src(v)
            if r.random() < .4:
                n = r.randint(1, 4 * len(want) + 2)
                act = r.choice(['kill', 'killmid', 'killmid'])
                log = ctx.wd / 'kill.log'
                log.unlink(missing_ok=True)
                v2 = r.randrange(len(srcs))
                set_src(v2)
                binder(ctx, S, out, a, env={'LD_PRELOAD': str(ctx.check.shim), 'VT_IO_LOG': str(log), 'VT_IO_FAULT': f'{n}:{act}'})
                ev, f = io_log(log)
                ctx.nev += len(ev)
                if f: ctx.stat('kills')
                hist.append(f'sources {v2}: {act} at operation {n} {f}')
                set_src(v)
            before = {k: b for k, b in read_tree(out).items()}
            for f in out.rglob('*'):
                if f.is_file(): os.utime(f, ns=(OLD, OLD))
            rc, so, e = binder(ctx, S, out, a)
            hist.append(f'run sources {v} {a}')
            if not ctx.ok(rc == 0, f'step {step}: exit', lambda: f'{hist}: {e[-500:]}'): return
            after = read_tree(out)
            bad = [k for k in want if after.get(k) != want[k]]
            ctx.ok(not bad, f'step {step}: up to date', lambda: f'after {hist[-8:]}: ' + ', '.join(f'{k}: {first_difference(want[k], after.get(k))}' for k in bad)[:1500])
            for k in want:
                if k in ('mod.cpp', 'mod.sources', 'mod.modules'): continue
                touched = os.stat(out / k).st_mtime_ns != OLD
                if before.get(k) == want[k]: ctx.ok(not touched, f'step {step}: {k} left alone', lambda: f'after {hist[-8:]}: {k} was rewritten although its content is the same')
                ctx.stat('unchanged_files' if before.get(k) == want[k] else 'changed_files')
            stray = [k for k in after if k not in want and k not in before]
            ctx.ok(not stray, f'step {step}: nothing else', lambda: f'unexpected files {stray}')
    return f'history-{seed}', run


def crash_points(ctx):
    """the process is killed at every file operation in turn; the next run repairs everything"""
    r = random.Random(f'{ctx.check.seed}')
    fs = {k: PRE + v for k, v in {'a.hpp': 'namespace a { struct X { int x; virtual ~X() {} virtual int v() { return 1; } }; inline int f(X &) { return 1; } }\n', 'b/c.hpp': '#include <a.hpp>\nnamespace b { struct Y : a::X { int y; }; }\nnamespace d { enum class E { p }; }\n'}.items()}
    fs['main.hpp'] = '#include <b/c.hpp>\n#include <a.hpp>\n'
    write_tree(ctx.wd / 'src', fs)
    fresh = ctx.wd / 'fresh'
    fresh.mkdir()
    log = ctx.wd / 'log'
    rc, o, e = binder(ctx, ctx.wd / 'src', fresh, env={'LD_PRELOAD': str(ctx.check.shim), 'VT_IO_LOG': str(log)})
    want = read_tree(fresh)
    ev, _ = io_log(log)
    ctx.nev += len(ev)
    if not ctx.ok(rc == 0 and len(ev) > 5, 'first run', f'{rc} {len(ev)} {e[-300:]}'): return
    for k in range(1, len(ev) + 1):
        for act in ('kill', 'killmid'):
            if act == 'killmid' and ev[k - 1][0] != 'write': continue
            out = ctx.wd / f'k{k}{act}'
            out.mkdir()
            l = ctx.wd / f'k{k}{act}.log'
            binder(ctx, ctx.wd / 'src', out, env={'LD_PRELOAD': str(ctx.check.shim), 'VT_IO_LOG': str(l), 'VT_IO_FAULT': f'{k}:{act}'})
            if io_log(l)[1] is None: continue
            ctx.stat('kills')
            rc, o, e = binder(ctx, ctx.wd / 'src', out)
            ctx.eq(rc, 0, f'{act} at {k}: exit of the next run')
            compare(ctx, f'{act} at operation {k} ({ev[k - 1][0]} {os.path.relpath(ev[k - 1][1], fresh)})', want, read_tree(out))


def large_files(ctx):
    """one byte differs, anywhere in a large file of the same length: it is brought up to date; none does: it is left alone"""
    r = random.Random(f'{ctx.check.seed}-large')
    write_tree(ctx.wd / 'src', {'big.hpp': PRE + 'namespace big {\n' + ''.join(f'struct Large{k} {{ int member{k} = {k}; int method{k}(int argument{k}, double other{k} = 1) const {{ return {k}; }} }};\n' for k in range(240)) + '}\n', 'main.hpp': '#include <big.hpp>\n'})
    out, args = ctx.wd / 'out', ['--max-file-size', '100000000']
    out.mkdir()
    rc, o, e = binder(ctx, ctx.wd / 'src', out, args)
    want = read_tree(out)
    n = max(want, key=lambda k: len(want[k]))
    b = want[n]
    if not ctx.ok(rc == 0 and len(b) > 140000, 'first run', lambda: f'{rc} {len(b)} bytes {e[-300:]}'): return
    for i in [0, 1, 511, 512, 1023, 1024, 4095, 4096, 8191, 8192, 32767, 32768, 65535, 65536, 131072, len(b) // 2, len(b) - 4096, len(b) - 2, len(b) - 1] + [r.randrange(len(b)) for _ in range(4)]:
        (out / n).write_bytes(b[:i] + bytes([b[i] ^ 1]) + b[i + 1:])
        rc, o, e = binder(ctx, ctx.wd / 'src', out, args)
        ctx.ok(rc == 0, f'byte {i}: exit', lambda: e[-300:])
        compare(ctx, f'byte {i} of {n} was different', want, read_tree(out))
    os.utime(out / n, ns=(OLD, OLD))
    rc, o, e = binder(ctx, ctx.wd / 'src', out, args)
    ctx.ok(os.stat(out / n).st_mtime_ns == OLD, 'left alone', 'rewritten although its content is the same')


def cases(check, rng, tier):
    return ([('large-files', large_files), environments('environment-stl', lambda r: STL), environments('environment-stl-include', lambda r: STL, ['--include-pybind11-stl', '--annotate-includes', '--annotate-functions', '--trace']), environments('environment-single', lambda r: STL, ['--single-file'])]
            + [environments(f'environment-{s}', world_files, a) for s, a in zip(seeds(rng, nworlds(tier, 3, 40)), ([], ['--flat', '--annotate-functions'], ['--max-file-size', '1'], ['--annotate-includes', '--trace']) * 10)]
            + [('crash-points', crash_points)] + [history(s, nworlds(tier, 9, 40)) for s in seeds(rng, nworlds(tier, 7, 60))])


CHECK = Check('C13', 'exploration', 'byte comparison of outputs and modification times over disturbed environments and over histories of edits, damage, kills at file operations and runs',
              'one observation per compared output tree or per file that has to be left alone; non-trivial = distinct (project, environment) or history step', cases, need=('plain', 'shim'),
              assumptions=['the root module file and the two lists are rewritten by every run', 'files of earlier runs that are no longer listed are left where they are', 'with --single-file the output names the prefix it was given'])
