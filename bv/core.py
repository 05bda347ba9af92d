"""Common machinery of the checks: builds binder from /repo's working tree, runs it on generated projects, compiles what it
generated, runs a driver over the imported module and collects what the monitors observed."""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, random, re, shutil, signal, subprocess, sys, threading, time, traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("BV_REPO", "/repo"))
CACHE, WORK, REPLAYS = VERIF / '.cache', VERIF / '.work', VERIF / 'replays'
SUPPORT = VERIF / 'bv' / 'support'
LLVM = '/usr/lib/llvm-14'
CXX, CXX18 = '/usr/bin/clang++-14', '/usr/bin/clang++-18'
PY = '/usr/bin/python3.12'
NCPU = os.cpu_count() or 4
ENV = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', 'HOME': os.environ.get('HOME', '/root'), 'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8', 'PYTHONDONTWRITEBYTECODE': '1'}
ASAN_ENV = {'ASAN_OPTIONS': 'detect_leaks=0:allow_user_poisoning=0:abort_on_error=0:exitcode=77:detect_container_overflow=0:detect_stack_use_after_return=0', 'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=0'}


class Inconclusive(Exception):
    pass


class BuildError(Exception):
    pass


def sh(cmd, timeout=120, cwd=None, env=None, stdin=None):
    """run a command; returns (rc, stdout, stderr); rc is 'timeout' when it ran out of time"""
    e = dict(ENV)
    if env: e.update(env)
    p = subprocess.Popen([str(c) for c in cmd], cwd=cwd, env=e, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        o, r = p.communicate(stdin, timeout=timeout)
        return p.returncode, o.decode('utf-8', 'replace'), r.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, r = p.communicate()
        return 'timeout', o.decode('utf-8', 'replace'), r.decode('utf-8', 'replace')


def pmap(fn, items, n=None):
    with cf.ThreadPoolExecutor(n or NCPU) as ex:
        return list(ex.map(fn, items))


class Lock:
    def __init__(self, name):
        CACHE.mkdir(exist_ok=True)
        self.path = CACHE / (name + '.lock')

    def __enter__(self):
        self.f = open(self.path, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def source_files():
    s = REPO / 'source'
    return sorted(p for p in s.rglob('*') if p.is_file() and p.suffix in ('.cpp', '.hpp', '.h', '.cc', '.inc', '.ipp') or p.name == 'CMakeLists.txt')


def source_key(extra=''):
    h = hashlib.sha256(extra.encode())
    for p in source_files():
        h.update(str(p).encode() + b'\0' + p.read_bytes() + b'\0')
    return h.hexdigest()[:20]


def build_binder(kind='plain'):
    """kind: plain | asan. Returns the path of the executable built from /repo's working tree."""
    key = source_key('v3' + kind)
    d = CACHE / f'binder-{kind}-{key}'
    exe = d / 'bin' / 'binder'
    with Lock('binder-' + kind):
        if exe.exists():
            os.utime(d)
            return exe
        shutil.rmtree(d, ignore_errors=True)
        (d / 'o').mkdir(parents=True)
        (d / 'bin').mkdir()
        (d / 'lib').mkdir()
        (d / 'lib' / 'clang').symlink_to(LLVM + '/lib/clang')
        src = REPO / 'source'
        units = sorted(src.glob('*.cpp')) + sorted((src / 'fmt').glob('*.cc'))
        flags = ['-I' + LLVM + '/include', '-I' + str(src), '-std=gnu++14', '-fno-rtti', '-w', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', '-DBINDER_VERSION_STRING="1.4.1"']
        if kind == 'plain': cxx, opt = CXX, ['-O0']
        else: cxx, opt = CXX18, ['-O0', '-g1', '-fsanitize=address,undefined', '-fno-sanitize=vptr,function', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS']

        def one(u):
            o = d / 'o' / (u.name + '.o')
            return (o,) + sh([cxx] + flags + opt + ['-c', u, '-o', o], timeout=600)
        objs, errs = [], []
        for o, rc, out, err in pmap(one, units):
            objs.append(o)
            if rc != 0: errs.append(f'{o.name}: rc={rc}\n{err[-3000:]}')
        if not errs:
            rc, out, err = sh([cxx] + opt[2 if kind == 'asan' else 0:] + objs + ['-rdynamic', '-Wl,-rpath,' + LLVM + '/lib', LLVM + '/lib/libLLVM.so', LLVM + '/lib/libclang-cpp.so.14', '-o', str(exe) + '.tmp'], timeout=300)
            if rc != 0: errs.append('link: ' + err[-3000:])
        if errs and kind == 'plain':  # the tree may need its own build description: use it
            b = d / 'cmake'
            rc, out, err = sh(['cmake', '-S', REPO, '-B', b, '-G', 'Ninja', '-DCMAKE_POLICY_VERSION_MINIMUM=3.5', '-DFETCHCONTENT_FULLY_DISCONNECTED=ON', f'-DLLVM_DIR={LLVM}/lib/cmake/llvm', f'-DClang_DIR={LLVM}/lib/cmake/clang', '-DBINDER_ENABLE_TEST=OFF', '-Wno-dev'], timeout=120, env={'CC': '/usr/bin/gcc-13', 'CXX': '/usr/bin/g++-13'})
            if rc == 0: rc, out, err = sh(['ninja', '-C', b, 'binder'], timeout=600)
            found = [p for p in b.rglob('binder') if p.is_file() and os.access(p, os.X_OK)]
            if rc == 0 and found:
                errs = []
                shutil.copy(found[0], str(exe) + '.tmp')
            else: errs.append('cmake: ' + out[-1500:] + err[-1500:])
        if errs: raise BuildError('\n'.join(errs))
        os.rename(str(exe) + '.tmp', exe)
        shutil.rmtree(d / 'o')
        old = sorted(CACHE.glob(f'binder-{kind}-*/'), key=lambda p: p.stat().st_mtime)
        for p in old[:-4]: shutil.rmtree(p, ignore_errors=True)
        return exe


CFLAGS = ['-O0', '-std=c++14', '-fPIC', '-w', '-I/usr/include/python3.12', '-isystem', str(SUPPORT)]


def build_pch():
    """precompiled <pybind11/pybind11.h>, <functional>, <string> and the instrumentation"""
    key = hashlib.sha256((SUPPORT / 'vt/vt.hpp').read_bytes() + (SUPPORT / 'vt_support.cpp').read_bytes() + repr((CFLAGS, (SUPPORT / 'vt/vt.hpp').stat().st_mtime_ns)).encode()).hexdigest()[:16]
    d = CACHE / ('pch-' + key)
    with Lock('pch'):
        if (d / 'ok').exists(): return d
        shutil.rmtree(d, ignore_errors=True)
        d.mkdir(parents=True)
        (d / 'pch.hpp').write_text('#include <functional>\n#include <pybind11/pybind11.h>\n#include <string>\n#include <memory>\n#include <ostream>\n#include <sstream>\n#include <vector>\n#include <map>\n#include <vt/vt.hpp>\n')
        jobs = [[CXX] + CFLAGS + ['-x', 'c++-header', '-fpch-instantiate-templates', str(d / 'pch.hpp'), '-o', str(d / 'pch.pch')],
                [CXX] + CFLAGS + ['-c', str(SUPPORT / 'vt_support.cpp'), '-o', str(d / 'vt.o')]]
        for rc, o, e in pmap(lambda c: sh(c, 300), jobs):
            if rc != 0: raise BuildError('pch: ' + e[-2000:])
        (d / 'ok').write_text('')
        return d


def build_shim():
    """the library that logs and disturbs changes of the file system"""
    src = SUPPORT / 'io_shim.c'
    so = CACHE / ('io_shim-' + hashlib.sha256(src.read_bytes()).hexdigest()[:16] + '.so')
    with Lock('shim'):
        if not so.exists():
            rc, o, e = sh(['gcc', '-shared', '-fPIC', '-O1', '-w', '-o', str(so) + '.tmp', src, '-ldl'], 120)
            if rc != 0: raise BuildError('io_shim: ' + e[-2000:])
            os.rename(str(so) + '.tmp', so)
    return so


def io_log(path):
    """[(operation, path)] that the program under the shim performed, and the injected fault or None"""
    ev, fault = [], None
    p = Path(path)
    for l in p.read_text(errors='replace').split('\n') if p.exists() else []:
        f = l.split('\t')
        if len(f) != 3: continue
        if f[0] == '!': fault = (f[1], f[2])
        else: ev.append((f[1], f[2]))
    return ev, fault


def write_tree(root, files):
    for name, text in files.items():
        p = Path(root) / name
        p.parent.mkdir(parents=True, exist_ok=True)
        if isinstance(text, bytes): p.write_bytes(text)
        else: p.write_text(text)


def read_tree(root):
    r = {}
    for p in sorted(Path(root).rglob('*')):
        if p.is_file(): r[str(p.relative_to(root))] = p.read_bytes()
    return r


class Fail:
    def __init__(self, prop, case, label, detail):
        self.prop, self.case, self.label, self.detail = prop, case, label, str(detail)


class Ctx:
    """one case being executed: scratch directory, observations, failures"""

    def __init__(self, check, name, wd):
        self.check, self.name, self.wd = check, name, Path(wd)
        self.obs, self.fails, self.nev, self.labels, self.stats, self.cmds = 0, [], 0, [], {}, []
        self.inconclusive = []
        self.sample = None

    # --- observations made by the monitors in this process
    def ok(self, cond, label, detail='', prop=None):
        if prop is not None and prop != self.check.prop: return cond
        self.obs += 1
        self.labels.append(label)
        if not cond: self.fails.append(Fail(self.check.prop, self.name, label, detail() if callable(detail) else detail))
        return cond

    def eq(self, got, want, label, prop=None):
        return self.ok(got == want, label, lambda: f'expected {want!r}, got {got!r}', prop)

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    # --- pipeline
    def src(self, files):
        write_tree(self.wd / 'src', files)

    def binder(self, root='mod', main='main.hpp', out='out', config=None, args=(), clang=(), exe=None, env=None, timeout=120, std='c++14', bind=None, cwd=None, sep=True, mkout=True, wrap=()):
        """run the real binder; returns (rc, stdout, stderr)"""
        o = self.wd / out
        if mkout: o.mkdir(parents=True, exist_ok=True)
        cmd = list(wrap) + [str(exe or self.check.exe)]
        cmd += ['--root-module', root, '--prefix', str(o) + ('/' if sep else '')]
        if config is not None:
            c = self.wd / (out.replace('/', '_') + '.config')
            if isinstance(config, bytes): c.write_bytes(config)
            else: c.write_text(config)
            cmd += ['--config', str(c)]
        for b in (bind or []): cmd += ['--bind', b]
        cmd += list(args) + [str(self.wd / 'src' / main) if not os.path.isabs(str(main)) else str(main)]
        cmd += ['--', '-x', 'c++', '-std=' + std, '-I' + str(self.wd / 'src'), '-isystem', str(SUPPORT), '-Wno-everything'] + list(clang)
        self.cmds.append(cmd)
        for attempt in (0, 1):
            rc, so, se = sh(cmd, timeout=timeout, env=env, cwd=cwd or self.wd)
            if rc != 'timeout': break
            n = sum(1 for _ in os.scandir(o)) if o.is_dir() else 0
            if n > 20000:
                self.ok(False, 'the tool ends', f'{n} entries in the output directory after {timeout} s: ' + ' '.join(cmd))
                raise Inconclusive('binder does not stop')
            timeout *= 2
        else:
            raise Inconclusive('binder timed out: ' + ' '.join(cmd))
        (self.wd / (out.replace('/', '_') + '.log')).write_text(f'{cmd}\nrc={rc}\n--- stdout\n{so[-20000:]}\n--- stderr\n{se[-20000:]}\n')
        self.stat('binder_runs')
        return rc, so, se

    def sources(self, root='mod', out='out'):
        f = self.wd / out / (root + '.sources')
        return [l for l in f.read_text().split('\n') if l] if f.exists() else None

    def compile(self, root='mod', out='out', so='so', pch=True, cflags=(), jobs=2, extra_src=(), files=None, timeout=300, unity=False):
        """compile every file binder listed; returns list of (file, error) (empty: linked). unity: as one translation unit when that works"""
        files = files if files is not None else self.sources(root, out)
        if files is None: return [('.sources', 'no sources list')]
        if unity and len(files) > 1 and all((self.wd / out / f).exists() for f in files):
            u = f'unity_{root}.cpp'
            (self.wd / out / u).write_text(''.join(f'#include "{f}"\n' for f in files))
            bad = self.compile(root, out, so, pch, cflags, jobs, extra_src, [u], timeout)
            os.unlink(self.wd / out / u)
            if not bad: return bad
            self.stat('unity_fallbacks')
        (self.wd / so).mkdir(exist_ok=True)
        base = [CXX] + CFLAGS + ['-I' + str(self.wd / 'src'), '-I' + str(REPO / 'source'), '-isystem', str(SUPPORT)] + list(cflags)
        if pch: base += ['-include-pch', str(self.check.pch / 'pch.pch')]

        def one(kf):
            k, f = kf
            o = self.wd / so / (f'{k}_' + f.replace('/', '__') + '.o')
            s = self.wd / out / f
            if not s.exists(): return f, o, 1, 'listed in .sources but not written'
            for t in (timeout, 2 * timeout):
                rc, _, e = sh(base + ['-c', str(s), '-o', str(o)], timeout=t)
                if rc != 'timeout': break
            else: raise Inconclusive('compiler timed out on ' + f)
            if rc in (-9, 137): raise Inconclusive('compiler killed on ' + f)
            return f, o, rc, e
        res = pmap(one, list(enumerate(files)), jobs)
        self.stat('files_compiled', len(res))
        bad = [(f, e[:3000]) for f, o, rc, e in res if rc != 0]
        if bad: return bad
        objs = []
        for s in extra_src:
            o = self.wd / so / (s.replace('/', '__') + '.o')
            rc, _, e = sh([CXX] + CFLAGS + ['-I' + str(self.wd / 'src'), '-c', str(self.wd / 'src' / s), '-o', str(o)], timeout)
            if rc != 0: raise Inconclusive('workload source does not compile: ' + e[-2000:])
            objs.append(str(o))
        rc, _, e = sh([CXX, '-shared'] + [str(o) for _, o, _, _ in res] + objs + [str(self.check.pch / 'vt.o'), '-o', str(self.wd / so / (root + '.so'))], timeout)
        return [('link', e[:3000])] if rc != 0 else []

    def drive(self, code, root='mod', so='so', timeout=120, env=None, name='driver'):
        """run driver code in a fresh process; returns journal records; records failures"""
        d = self.wd / (name + '.py')
        d.write_text('import sys\nsys.path.insert(0, %r)\nfrom driver_rt import *\n' % str(VERIF / 'bv') + code + '\ndone()\n')
        j = self.wd / (name + '.journal')
        for t in (timeout, timeout * 3):
            rc, o, e = sh([PY, d, root, self.wd / so, j], timeout=t, cwd=self.wd, env=env)
            if rc != 'timeout': break
        else: raise Inconclusive('driver timed out: ' + e[-500:])
        recs = [json.loads(l) for l in j.read_text().split('\n') if l.strip()] if j.exists() else []
        (self.wd / (name + '.log')).write_text(f'rc={rc}\n{o[-20000:]}\n{e[-20000:]}')
        self.stat('driver_runs')
        starts, ended = {}, set()
        for r in recs:
            if r['k'] == 'import_error':
                self.ok(False, 'import', f"import of the generated module fails: {r['detail']}")
                return recs
            if r['k'] == 'imported': self.ok(True, 'import')
            if r['k'] == 'S': starts[r['i']] = r
            if r['k'] == 'E':
                s = starts[r['i']]
                ended.add(r['i'])
                self.nev += r['nev']
                self.ok(r['ok'], s['l'], r['d'] or '', prop=s['p'])
        if not recs or recs[-1]['k'] != 'done':
            pend = [s for i, s in starts.items() if i not in ended]
            if pend: self.ok(False, pend[-1]['l'], f'driver process died during this operation (rc={rc}): {e[-1500:]}', prop=None)
            elif any(r['k'] == 'imported' for r in recs): self.ok(False, 'driver', f'driver failed outside an observation (rc={rc}): {e[-1500:]}')
            else: self.ok(False, 'import', f'process died during import (rc={rc}): {e[-1500:]}')
        elif rc != 0: self.ok(False, 'exit', f'interpreter exit status {rc} after a complete run: {e[-1500:]}')
        return recs

    def project(self, files, driver, config=None, main='main.hpp', root='mod', args=(), bind=None, pch=True, jobs=2, std='c++14', clang=(), cflags=(), compile_jobs=None, extra_src=(), env=None, unity=True):
        """files -> binder -> compile -> driver"""
        self.src(files)
        if not self.sample: self.sample = {'case': self.name, 'config': config, 'args': list(args), 'files': {k: v[:1500] if isinstance(v, str) else repr(v)[:300] for k, v in list(files.items())[:3]}}
        rc, o, e = self.binder(root=root, main=main, config=config, args=args, bind=bind, std=std, clang=clang)
        if rc != 0:
            r2, _, e2 = sh([CXX, '-fsyntax-only', '-w', '-x', 'c++', '-std=' + std, '-I' + str(self.wd / 'src'), '-isystem', str(SUPPORT)] + list(clang) + [str(self.wd / 'src' / main)], 120)
            if r2 != 0: raise Inconclusive('workload does not compile: ' + e2[:500])
        if not self.ok(rc == 0, 'binder exit', lambda: f'binder exit status {rc}: {o[-1000:]} {e[-1500:]}'): return False
        bad = self.compile(root=root, pch=pch, jobs=jobs, cflags=list(cflags) + (['-std=' + std] if std != 'c++14' else []), extra_src=extra_src, unity=unity)
        if not self.ok(not bad, 'compile', lambda: f'generated file {bad[0][0]} does not compile: {bad[0][1]}'): return False
        if driver is not None: self.drive(driver, root=root, env=env)
        return True


class Check:
    def __init__(self, prop, level, technique, rule, cases, need=('plain', 'pch'), assumptions=(), jobs=NCPU):
        """cases(check, rng, tier) -> list of (name, fn(ctx))"""
        self.prop, self.level, self.technique, self.rule, self.cases, self.need, self.assumptions, self.jobs = prop, level, technique, rule, cases, need, list(assumptions), jobs

    def run(self, seed, tier, only=None, keep=False):
        t0 = time.time()
        self.seed, self.tier = seed, tier
        try:
            if 'plain' in self.need: self.exe = build_binder('plain')
            if 'asan' in self.need: self.asan = build_binder('asan')
            if 'pch' in self.need: self.pch = build_pch()
            if 'shim' in self.need: self.shim = build_shim()
        except BuildError as e:
            print('ERROR: cannot build /repo:', e)
            return 2
        known = load_known(self.prop)
        wd = WORK / f'{self.prop}-{os.getpid()}'
        shutil.rmtree(wd, ignore_errors=True)
        wd.mkdir(parents=True)
        lst = self.cases(self, random.Random(f'{self.prop}/{seed}'), tier)
        if only: lst = [c for c in lst if c[0] == only or (only.endswith('*') and c[0].startswith(only[:-1]))]
        deadline = t0 + (780 if tier == 'quick' else 6 * 3600)

        def one(c):
            name, fn = c
            ctx = Ctx(self, name, wd / re.sub(r'[^\w.+-]', '_', name))
            ctx.wd.mkdir(parents=True, exist_ok=True)
            if time.time() > deadline:
                ctx.inconclusive.append('time budget used up')
                return ctx
            try:
                fn(ctx)
            except Inconclusive as e: ctx.inconclusive.append(str(e))
            except Exception as e:
                ctx.inconclusive.append('machinery: ' + traceback.format_exc())
            return ctx
        ctxs = pmap(one, lst, self.jobs)
        fails = [f for c in ctxs for f in c.fails]
        new, seen_known = [], {}
        for f in fails:
            k = next((k for k in known if re.fullmatch(k['case'], f.case) and re.fullmatch(k['label'], f.label)), None)
            if k: seen_known[k['what']] = seen_known.get(k['what'], 0) + 1
            else: new.append(f)
        for k in known:
            if k['what'] in seen_known: print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        rc = 0

        def few(d, names):
            skip = shutil.ignore_patterns('*.o', '*.so')(d, names)
            return set(skip) | set(sorted(names)[2000:])
        mach = [c for c in ctxs if any(i.startswith('machinery') for i in c.inconclusive)]
        if new:
            rc = 1
            by_case = {}
            for f in new: by_case.setdefault(f.case, []).append(f)
            rd = REPLAYS / self.prop
            shutil.rmtree(rd, ignore_errors=True)
            for i, (case, fs) in enumerate(by_case.items()):
                if i >= int(os.environ.get('BV_NREPLAY', 5)): break
                d = rd / re.sub(r'[^\w.+-]', '_', case)
                src = wd / re.sub(r'[^\w.+-]', '_', case)
                if src.exists(): shutil.copytree(src, d, symlinks=True, ignore=few, dirs_exist_ok=True)
                d.mkdir(parents=True, exist_ok=True)
                (d / 'VIOLATION.txt').write_text('\n\n'.join(f'{f.label}: {f.detail}' for f in fs))
                (d / 'replay.sh').write_text(f'#!/bin/bash\n# re-runs this case against /repo\nexec env VERIF_SEED={seed} VERIF_TIER={tier} python3 {VERIF}/check.py {self.prop} --only {case!r}\n')
                for f in fs[:4]: print(f'  case {f.case}: {f.label}: {f.detail[:1200]}')
                print(f'VIOLATION property={self.prop} replay={d}')
        elif mach:
            for c in mach: print('ERROR:', c.name, c.inconclusive[0])
            rc = 2
        for c in ctxs:
            for i in c.inconclusive:
                if not i.startswith('machinery'): print('INCONCLUSIVE:', c.name, i[:500])
        labels = {}
        for c in ctxs:
            for l in c.labels: labels[(c.name, l)] = 1
        stats = {}
        for c in ctxs:
            for k, v in c.stats.items(): stats[k] = stats.get(k, 0) + v
        ev = {'property': self.prop, 'tier': tier, 'seed': seed, 'level': self.level,
              'coverage': {'evaluations': sum(c.obs for c in ctxs), 'distinct_nontrivial': len(labels), 'rule': self.rule, 'cases_run': len(ctxs), 'cxx_events_observed': sum(c.nev for c in ctxs), **stats,
                           'inconclusive_cases': sum(1 for c in ctxs if c.inconclusive),
                           'samples': [c.sample for c in ctxs if c.sample][:2] + [{'case': c.name, 'observations': c.labels[:12]} for c in ctxs[:3]]},
              'assumptions': self.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
        (VERIF / 'evidence').mkdir(exist_ok=True)
        (VERIF / 'evidence' / f'{self.prop}.json').write_text(json.dumps(ev, indent=1, default=str))
        print(f"{self.prop} {tier} seed={seed}: {len(ctxs)} cases, {ev['coverage']['evaluations']} observations ({len(labels)} distinct), {ev['coverage']['cxx_events_observed']} C++ events, {len(new)} violations, {sum(seen_known.values())} known, {ev['coverage']['inconclusive_cases']} inconclusive, {ev['wall_s']} s")
        sys.stdout.flush()
        if not keep: sh(['rm', '-rf', wd], timeout=60)  # a tool that does not stop writing files can leave a million of them
        else: print('kept', wd)
        if not any(c.obs for c in ctxs):
            print('ERROR: nothing was observed')
            return rc or 2
        return rc


def load_known(prop):
    p = VERIF / 'known-findings.txt'
    r = []
    if p.exists():
        for l in p.read_text().split('\n'):
            m = re.match(r'known: property=(\S+) case=(\S+) label=(.*?) :: (.*)', l)
            if m and m[1] == prop: r.append({'case': m[2], 'label': m[3], 'what': m[4]})
    return r
