"""C18: the tool itself, instrumented, over hostile sources, configurations and options."""
import os, random, re, shutil, time
from pathlib import Path
from ..core import ASAN_ENV, CXX, REPO, SUPPORT, Check, Inconclusive, read_tree, sh
from ..hostile import C
from ..scen import PRE, seeds, nworlds
from ..world import World

LIB_EXC = r'basic_string|vector::|map::at|deque::|array::|bad_|stoi|stol|regex|invalid string|out_of_range|_M_'


def verdict(rc, o, e):
    """None, or what went wrong with this run of the instrumented tool"""
    t = e + o
    if 'AddressSanitizer' in t or rc == 77: return 'memory error: ' + ''.join(re.findall(r'ERROR: AddressSanitizer[^\n]*\n(?:.*\n){0,14}', t)[:1])[:1800] + f' (status {rc})'
    if 'runtime error:' in e: return 'undefined behaviour: ' + ''.join(re.findall(r'[^\n]*runtime error:[^\n]*\n(?:.*\n){0,8}', e)[:1])[:1500]
    if '_GLIBCXX_ASSERT' in t or re.search(r'Assertion [\'`].*failed', t): return 'failed assertion: ' + e[-800:]
    if isinstance(rc, int) and rc < 0:
        m = re.search(r"terminate called after throwing an instance of '([^']*)'\s*what\(\): *(.*)", e)
        if rc == -6 and m and m[1] == 'std::runtime_error' and m[2].strip() and not re.match(LIB_EXC, m[2]): return None
        return f'ended by signal {-rc}: {e[-1200:]}'
    if rc == 'timeout': return 'does not end'
    return None


CONFIG_WORDS = ['namespace', 'function', 'class', 'field', 'enum', 'python_builtin', 'include', 'include_for_class', 'include_for_namespace', 'buffer_protocol', 'module_local_namespace', 'binder', 'add_on_binder', 'binder_for_namespace', 'add_on_binder_for_namespace', 'custom_shared', 'smart_holder', 'pybind11_include_file', 'default_static_pointer_return_value_policy', 'default_static_lvalue_reference_return_value_policy', 'default_static_rvalue_reference_return_value_policy', 'default_member_pointer_return_value_policy', 'default_member_lvalue_reference_return_value_policy', 'default_member_rvalue_reference_return_value_policy', 'trampoline_member_function_binder', 'default_call_guard', 'prefix_for_static_member_functions']
ARG1 = {'include', 'namespace', 'enum', 'field', 'python_builtin', 'buffer_protocol', 'custom_shared', 'smart_holder', 'pybind11_include_file', 'default_call_guard', 'prefix_for_static_member_functions', 'module_local_namespace', 'class', 'function'}


def names_in(text): return sorted(set(re.findall(r'[A-Za-z_]\w*', text)) - {'struct', 'int', 'inline', 'return'})[:400] or ['x']


def config(r, text, junk):
    ns = names_in(text)
    spaces = sorted(set(re.findall(r'namespace (\w+)', text))) or ['n']

    def nm():
        q = '::'.join(r.choice(ns if r.random() < .7 else spaces) for _ in range(r.choice([1, 1, 2, 2, 3])))
        k = r.random()
        if k < .1: q += '<' + r.choice(['int', 'A', 'int,double', 'std::vector<int>', '', '<']) + '>'
        elif k < .2: q += '(' + r.choice(['int', 'A const &', '', 'int, double', ')']) + ')'
        elif k < .25: q = '::' + q
        elif k < .3: q += '::'
        return q
    out = []
    for _ in range(r.randint(0, 9)):
        d = r.choice(CONFIG_WORDS)
        sign = r.choice('++-')
        a = []
        for _ in range(1 if d in ARG1 else 2): a.append('pybind11::return_value_policy::' + r.choice(['copy', 'move', 'reference', 'automatic', 'take_ownership']) if 'policy' in d else '<' + r.choice(['vector', 'a.hpp', 'x/y.hpp']) + '>' if 'include' in d and (len(a) or d == 'include' or 'file' in d) else nm())
        l = f'{sign}{d} ' + ' '.join(a)
        if r.random() < junk:
            l = r.choice([l[:r.randrange(len(l) + 1)], l.replace(' ', '\t\t '), l + l, '#' + l, l.replace('::', ':'), l + ' ' + 'z' * r.choice([10, 5000]), ''.join(r.sample(l, len(l))), sign + d, '+', '-', ' ', sign + ' ' + d, d, l + '\r', '\0' + l, '\xff\xfe' + l, l.replace('+', '++'), l + ' # c', '+include ', '+include <', '+binder', '%s%n{}{0}'])
        out.append(l)
    return r.choice(['\n', '\n', '\r\n', '\n\n']).join(out) + r.choice(['', '\n'])


def options(r, text):
    o = []
    for f in ('--annotate-includes', '--annotate-functions', '--trace', '--flat', '--single-file', '--include-pybind11-stl', '--skip-line-number', '--v', '--bind-class-template-specialization=0'):
        if r.random() < .15: o.append(f)
    if r.random() < .3: o += ['--max-file-size', r.choice(['0', '1', '100', '3000', '1000000000', '-1', '-2147483648', '2147483647'])]
    ns = sorted(set(re.findall(r'namespace (\w+)', text))) or ['n']
    if r.random() < .8: o += ['--bind', r.choice(['', '', '', r.choice(ns), 'no_such', 'std'])]
    if r.random() < .2: o += ['--skip', r.choice(ns)]
    return o


def split(text):
    inc = [l for l in text.split('\n') if l.startswith('#include')]
    return inc, '\n'.join(l for l in text.split('\n') if not l.startswith('#include'))


TOK = re.compile(r'\s+|[A-Za-z_]\w*|\d[\w.]*|"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|::|->|<<|>>|&&|.', re.S)


def mutate(r, text, pool):
    """a source that is near to a valid one"""
    k = r.random()
    if k < .25:  # several of them, each in a namespace of its own: mostly valid
        inc, out = [], []
        for i, t in enumerate([text] + r.sample(pool, r.randint(1, 3))):
            a, b = split(t)
            if '#' in b: continue
            inc += a
            out.append(r.choice([f'namespace m{i} {{ {b} }}', f'namespace m{i} {{ namespace m0 {{ {b} }} }}', f'namespace m0 {{ inline namespace k{i} {{ {b} }} }}']))
        return '\n'.join(inc) + '\n' + '\n'.join(out)
    if k < .3: return text[:r.randrange(len(text) + 1)]
    if k < .35:
        b = bytearray(text.encode())
        for _ in range(r.randint(1, 6)):
            if b: b[r.randrange(len(b))] = r.randrange(256)
        return bytes(b)
    tk = TOK.findall(text)
    other = TOK.findall(r.choice(pool))
    words = ['virtual', 'static', 'const', '&', '*', '&&', 'template <typename T>', 'struct', 'enum', 'class', 'union', 'private:', 'public:', 'operator', '= delete', '= default', '= 0', '...', 'typedef', 'friend', 'explicit', 'constexpr', 'auto', 'decltype', 'T', 'using', 'void', 'unsigned', '[]', '[0]', '()', '{}', ';', '::', 'noexcept', 'final', 'override', 'mutable', 'volatile', '__attribute__((packed))', 'inline', 'namespace', 'extern "C"', '~']
    for _ in range(r.choice([1, 1, 1, 2, 3, 6])):
        if not tk: break
        i = r.randrange(len(tk))
        m = r.randrange(7)
        if m == 0: del tk[i]
        elif m == 1: tk.insert(i, tk[r.randrange(len(tk))])
        elif m == 2: tk[i] = ' ' + r.choice(words) + ' '
        elif m == 3: tk.insert(i, ' ' + r.choice(words) + ' ')
        elif m == 4 and other: tk[i] = r.choice(other)
        elif m == 5:
            j = r.randrange(len(tk))
            tk[i], tk[j] = tk[j], tk[i]
        else:
            j = min(len(tk), i + r.randint(1, 12))
            tk[i:j] = tk[i:j] * 2 if r.random() < .5 else []
    return ''.join(tk)


def attempt(ctx, label, text, std, conf, args, compare=False):
    d = ctx.wd / 'src'
    d.mkdir(exist_ok=True)
    (d / 'a.hpp').write_bytes(text if isinstance(text, bytes) else text.encode('utf-8', 'surrogateescape'))
    (d / 'main.hpp').write_text('#include <a.hpp>\n')
    outs = []
    shutil.rmtree(ctx.wd / 'out', ignore_errors=True)
    t0 = time.time()
    try: rc, o, e = ctx.binder(exe=ctx.check.asan, env=ASAN_ENV, args=args, config=conf, std=std, timeout=150)
    except Inconclusive:
        t0 = time.time()
        r2 = sh([CXX, '-fsyntax-only', '-w', '-x', 'c++', '-std=' + std, '-I' + str(d), str(d / 'main.hpp')], 30)[0]
        if r2 == 'timeout' or time.time() - t0 > 10: raise
        rc, o, e = 'timeout', '', ''
    bad = verdict(rc, o, e)
    if bad and ('signal' in bad or 'SEGV' in bad or 'stack-overflow' in bad):
        r2, _, e2 = sh([CXX, '-fsyntax-only', '-w', '-x', 'c++', '-std=' + std, '-I' + str(d), str(d / 'main.hpp')], 60)
        if r2 not in (0, 1):  # the compiler itself does not survive this input
            ctx.stat('compiler_crashes')
            return
    if bad: shutil.copytree(d, ctx.wd / ('bad-' + re.sub(r'\W', '_', label)[:60]), dirs_exist_ok=True)
    ctx.ok(bad is None, label, lambda: f'{bad}; options {args}; configuration {conf!r}')
    ctx.stat('completed' if rc == 0 else 'rejected')
    if rc == 0 and compare:
        a = read_tree(ctx.wd / 'out')
        shutil.rmtree(ctx.wd / 'out')
        rc, o, e = ctx.binder(args=args, config=conf, std=std, timeout=150)
        b = read_tree(ctx.wd / 'out')
        diff = [k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]
        ctx.ok(rc == 0 and not diff, label + ' (instrumented and plain tool agree)', lambda: f'status {rc}; differ: {diff[:5]}')


def corpus(n):
    def run(ctx):
        std, text = C[n]
        r = random.Random(f'{ctx.check.seed}-{n}')
        attempt(ctx, 'all', text, std, None, ['--bind', ''], compare=True)
        attempt(ctx, 'nothing bound', text, std, None, [])
        if n not in ('big-std', 'stl'): attempt(ctx, 'std too', text, std, '+namespace std\n+namespace __gnu_cxx\n', ['--bind', '', '--suppress-errors'])
        for k in range(2 if ctx.check.tier == 'quick' else 30):
            attempt(ctx, f'options {k}', text, std, config(r, text, .15) if r.random() < .8 else None, options(r, text), compare=k == 0)
    return 'corpus-' + n, run


def pool(): return [t for n, (s, t) in C.items() if n not in ('big-std', 'long', 'nested-deep', 'template-deep') and len(t) > 60]


def fuzz(seed, n):
    def run(ctx):
        r = random.Random(f'fuzz-{seed}')
        P = pool()
        for k in range(n):
            name = r.choice([x for x in C if x not in ('big-std', 'long', 'nested-deep')])
            std, text = C[name]
            t = mutate(r, text, P) if r.random() < .85 else text
            s = t if isinstance(t, str) else t.decode('utf-8', 'replace')
            a = options(r, s) + (['--suppress-errors'] if r.random() < .7 else [])
            if '--bind' not in a: a += ['--bind', '']
            attempt(ctx, f'{k} near {name}', t, r.choice([std, std, 'c++17', 'c++20']), config(r, s, .3) if r.random() < .4 else None, a, compare=k % 8 == 0)
            ctx.stat('mutants')
    return f'fuzz-{seed}', run


def confuzz(seed, n):
    """configurations: many lines, any bytes"""
    def run(ctx):
        r = random.Random(f'conf-{seed}')
        text = 'namespace n { struct A { int x; virtual int v(int) { return 1; } static int s(); A *p(); A &r(); }; template <typename T> struct B { T t; }; inline B<A> f(A &, B<int> const &) { return {}; } enum E { e0 }; namespace k { inline int g(A *) { return 1; } } }\n'
        for k in range(n):
            if r.random() < .2: c = bytes(r.randrange(256) for _ in range(r.randint(0, 300)))
            elif r.random() < .2: c = '\n'.join(r.choice('+-# ') + r.choice(CONFIG_WORDS) + r.choice(['', ' ', ' x', ' x y', ' <x>', ' n::A', ' n::A f', '\t', ' n::A a b c', ' ::', ' n', ' n::B<int> f', ' @all_namespaces', ' ""', ' <', ' >', ' (', ' n::f(', ' n::A::v', ' n::A::v n::A::s']) for _ in range(r.randint(1, 4)))
            else: c = config(r, text, .5)
            attempt(ctx, f'configuration {k}', text, 'c++14', c if isinstance(c, bytes) else c.encode('latin-1', 'replace'), options(r, text))
            ctx.stat('configurations')
    return f'config-{seed}', run


def repo_tests(part, parts):
    """the headers of the repository's own tests, as seeds"""
    def run(ctx):
        r = random.Random(f'{ctx.check.seed}-repo-{part}')
        fs = sorted((REPO / 'test').glob('T*.hpp'))
        P = pool()
        for f in fs[part::parts]:
            text = f.read_text(errors='replace')
            conf = f.with_suffix('.config')
            for k in range(1 if ctx.check.tier == 'quick' else 12):
                t = text if k == 0 else mutate(r, text, P)
                if isinstance(t, bytes): continue
                t = t.replace('#pragma once', '')
                attempt(ctx, f'{f.name} {k}', f'#include "{f}"\n' if k == 0 else t, 'c++14', conf.read_text() if conf.exists() and k % 2 == 0 else None, ['--bind', '', '--suppress-errors'] + (options(r, text) if k else []), compare=k == 0 and not any(x in text for x in ('<vector>',)))
    return f'seeds-{part}', run


def world(s):
    def run(ctx):
        r = random.Random(f'c18w-{s}')
        w = World(r, feats=('virtual', 'hidden', 'nested', 'doc'), ns=4, headers=3, classes=6, enums=3, functions=12)
        fs = w.files()
        ctx.src(fs)
        for args in ([], ['--flat', '--annotate-includes', '--trace'], ['--single-file', '--max-file-size', '1000', '--include-pybind11-stl']):
            outs = []
            for exe, env in ((ctx.check.asan, ASAN_ENV), (None, None)):
                shutil.rmtree(ctx.wd / 'out', ignore_errors=True)
                rc, o, e = ctx.binder(exe=exe, env=env, args=args, bind=[''])
                if exe:
                    bad = verdict(rc, o, e)
                    if not ctx.ok(bad is None and rc == 0, f'project {args}', lambda: f'status {rc}: {bad or e[-800:]}'): return
                outs.append(read_tree(ctx.wd / 'out'))
            ctx.ok(outs[0] == outs[1], f'instrumented and plain tool agree {args}', lambda: str([k for k in outs[0] if outs[0][k] != outs[1].get(k)][:5]))
    return f'world-{s}', run


def memcheck(n):
    """uses of uninitialised memory: the plain tool under valgrind"""
    def run(ctx):
        std, text = C[n]
        ctx.src({'a.hpp': text, 'main.hpp': '#include <a.hpp>\n'})
        r = random.Random(f'{ctx.check.seed}-{n}')
        base = ['/usr/bin/valgrind', '-q', '--error-exitcode=66', '--undef-value-errors=yes', '--num-callers=14']
        for k in range(1):
            conf = '+include_for_class x <a.hpp>\n' + config(random.Random(3), text, 0) if n == 'circular' else None
            rc, o, e = ctx.binder(wrap=base, args=['--bind', ''] + (['--annotate-includes', '--trace', '--max-file-size', '2000'] if len(n) % 2 else []), config=conf, std=std, timeout=420)
            errs = re.findall(r'==\d+== (?:Conditional|Use of|Invalid|Syscall|Mismatched|Source and|Jump)[^\n]*\n(?:==\d+==    .*\n)+', e)
            own = [x for x in errs if 'binder::' in x]
            ctx.ok(not own, 'memcheck', lambda: own[0][:1500])
            ctx.stat('memcheck_runs')
    return 'memcheck-' + n, run


def cases(check, rng, tier):
    q = tier == 'quick'
    l = [memcheck(n) for n in (['circular', 'inherit', 'enums', 'unnamed'] if q else [n for n in C if n not in ('big-std', 'stl', 'long', 'nested-deep', 'template-deep')])]
    l += [corpus(n) for n in sorted(C, key=lambda n: n not in ('big-std', 'stl', 'template-deep', 'long', 'nested-deep'))]
    l += [fuzz(s, 12 if q else 60) for s in seeds(rng, 22 if q else 150)]
    l += [confuzz(s, 20 if q else 60) for s in seeds(rng, 6 if q else 60)]
    l += [repo_tests(k, 8) for k in range(8)] + [world(s) for s in seeds(rng, 5 if q else 60)]
    return l


CHECK = Check('C18', 'exploration', 'AddressSanitizer, UndefinedBehaviorSanitizer and standard library assertions in the tool (memcheck for uninitialised values), exit status monitor and comparison with the uninstrumented tool, over a hostile corpus, mutants of it, random projects, configurations and options',
              'one observation per run of the instrumented tool judged, or per comparison with the plain tool; non-trivial = distinct (case, run)', cases, need=('plain', 'asan'),
              assumptions=['the installed LLVM libraries are not instrumented', 'inputs on which the compiler itself crashes are set aside', 'a run that throws std::runtime_error with a message counts as a reported error'])
