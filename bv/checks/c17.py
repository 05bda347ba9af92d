"""C17: documentation comments arrive as doc strings, on the right object, unharmed, and change nothing else."""
import random, re
from ..core import Check
from ..scen import PRE, DPRE, scen, worlds, files_of, seeds, nworlds

# words of a comment as written and as they have to arrive (comment syntax itself: a backslash is written twice, \" is ")
TOK = [('plain', None), ('"quoted"', None), ('"', None), ("'", None), ("'single'", None), ('\\\\', '\\'), ('\\\\n', '\\n'), ('a\\\\"b', 'a\\"b'), ('\\\\\\\\', '\\\\'), ('\\"', '"'), ('100%', None), ('%s', None), ('%d%n', None), ('{}', None), ('{0}', None), ('{a}', None), ('{{', None), ('}}', None), ('$(x)', None), ('`tick`', None),
       ('R"(raw)"', None), (')"', None), (')_"', None), ('");', None), ('"); std::abort(); ("', None), ('//', None), ('/x', None), ('#include', None), ('#', None), ('##', None), ('a;b', None), ('[](){}', None), ('(int)', None), ('0', None), ('\\\\0', '\\0'), ('\\\\x41', '\\x41'), ('\\\\u00e9', '\\u00e9'), ('\\\\101', '\\101'),
       ('??/', None), ('??(', None), ('what??!', None), ('???', None), ('??', None), ('ünïcödé', None), ('—', None), ('日本', None), ('✓', None), ('😀', None), ('a\tb', 'a b'), ('x*y', None), ('x = y', None), ('a && b', None), ('1 < 2', None), ('3 > 2', None), ('x->y', None), ('n::m', None), ('std::vector', None), ('T<int>', None), ('~x', None), ('^', None), ('|', None), ('?:', None), ('...', None), ('e.g.', None), ('_u_', None), ('__init__', None), ('1.', None), ('-', None), ('+', None), (':', None), ('C++', None), ('lambda', None), ('@ ', '@'), ('pybind11::arg', None), ('M("")', None), ('L"x"', None), ('u8"y"', None), ('\\\\\\"', '\\"'), ('\\\\\\\\"', '\\\\"'), ('end\\\\', 'end\\')]

FIRST = [(a, b) for a, b in TOK if a[0] not in '/*@']
LAST = [(a, b) for a, b in TOK if a[0] not in '/*@' and not a.endswith(('\\', '??/'))]


def norm(s):
    # clang resolves escapes outside of quoted text only: the number of backslashes is not compared
    return re.sub(r'\\+', r'\\', re.sub(r'\\+(?=")', '', ' '.join(s.split())))


class Doc:
    def __init__(self, r, k, tokens=None, style=None):
        self.id = f'D{k}x'
        n = r.choice([1, 1, 2, 3, 5]) if tokens is None else 1
        lines, exp = [], []
        for i in range(n):
            ts = tokens or [r.choice(TOK) for _ in range(r.randint(1, 7))]
            ls = ' '.join(t[0] for t in ts)
            le = ' '.join(t[0] if t[1] is None else t[1] for t in ts)
            a, b = (self.id if not i else 'w'), (self.id if i == n - 1 else 'z')
            la, lb, ea, eb = a, b, a, b
            if tokens is None and r.random() < .4:  # the text begins or ends with something that is no word
                x, y = r.choice(FIRST), r.choice(LAST)
                la, ea, lb, eb = f'{x[0]} {a}', f'{x[1] or x[0]} {a}', f'{b} {y[0]}', f'{b} {y[1] or y[0]}'
            lines.append(f'{la} {ls} {lb}')
            exp.append(f'{ea} {le} {eb}')
        if n > 1 and r.random() < .3: lines.insert(1, '')
        self.exp = norm(' '.join(exp))
        self.lines, self.style = lines, style or r.choice(['///', '//!', '/**', '/*!', '/** '])

    def src(self, ind=''):
        if self.style in ('///', '//!'): return ''.join(f'{ind}{self.style} {l}\n' for l in self.lines)
        star = ' *' if not self.style.endswith(' ') else '  '
        if len(self.lines) == 1: return f'{ind}{self.style.strip()} {self.lines[0]} */\n'
        return f'{ind}{self.style.strip()}\n' + ''.join(f'{ind}{star} {l}\n' for l in self.lines) + f'{ind} */\n'


DRV = r'''
def nz(s): return re.sub(r'\\+', r'\\', re.sub(r'\\+(?=")', '', ' '.join((s or '').split())))
def overloads(f):
    """[(signature line, rest of its text)]"""
    d, n = f.__doc__ or '', f.__name__
    if 'Overloaded function.' in d[:len(n) + 60]:
        p = re.split(r'^\d+\. (?=%s\()' % re.escape(n), d, flags=re.M)[1:]
    else: p = [d]
    return [(x.split('\n', 1) + [''])[:2] for x in p]
def fdoc(f, k, n):
    o = overloads(f)
    if len(o) != n: return f'{len(o)} overloads'
    s, t = o[k]
    m = re.search(r'(?:^|\n)C\+\+: (.*)\s*$', t, re.S)
    return nz(t[:m.start()] if m else t), nz(m.group(1)) if m else None
def edoc(e): return nz((e.__doc__ or '').split('Members:')[0])
def alldocs(root):
    out, seen = [], set()
    def go(o, p):
        if id(o) in seen: return
        seen.add(id(o))
        d = getattr(o, '__doc__', None)
        if isinstance(d, str): out.append((p, d))
        if not (isinstance(o, type) or type(o).__name__ == 'module'): return
        for k, v in sorted(vars(o).items()):
            if isinstance(v, (staticmethod, classmethod)): v = getattr(o, k)
            if isinstance(v, (int, str, bytes, type(None))) or hasattr(type(v), '__members__'): continue
            if isinstance(v, type) and not v.__module__.startswith('mod'): continue
            if isinstance(o, type) and hasattr(o, '__members__'): continue
            go(v, p + '.' + k)
    go(root, root.__name__)
    return out
def where():
    w = {}
    for p, d in alldocs(M):
        for i in set(re.findall(r'D\d+x', d)): w.setdefault(i, []).append((p, len(re.findall(i + r'\b', d))))
    return {k: sorted(v) for k, v in w.items()}
'''


class Gen:
    """a header with documented and undocumented declarations of every kind"""

    def __init__(self, r, n, tokens=None, hostile_only=False):
        self.r, self.k, self.h, self.d, self.want = r, 0, '', '', {}
        self.tokens = list(tokens or [])
        for i in range(n): self.item(i)

    def u(self):
        self.k += 1
        return self.k

    def doc(self, p=.75):
        if self.r.random() > p: return None
        return Doc(self.r, self.u(), tokens=[self.tokens.pop()] if self.tokens else None)

    def at(self, d, path, n=2):
        if d: self.want.setdefault(d.id, []).append((path, n))

    def fn(self, d, ind, decl, py, path, ret, cxx, k=0, n=1, call='()', ev=None, obj=None):
        x = d.exp if d else ''
        self.d += f't({path + " doc " + str(k)!r}, lambda: fdoc({py}, {k}, {n}), ret=({x!r}, {cxx!r}))\n'
        if k == 0: self.d += f't({path + " still works"!r}, lambda: {obj or py}{call}, ret={ret!r})\n'
        self.at(d, path)
        return (d.src(ind) if d else '') + f'{ind}{decl}\n'

    def item(self, i):
        r, u = self.r, self.u()
        ns = r.choice(['', 'n', 'n'])
        q, p, m = ('n::', 'M.n.', 'mod.n.') if ns else ('', 'M.', 'mod.')
        kind = r.choice(['fn', 'fn', 'over', 'dflt', 'cls', 'cls', 'enum', 'redecl', 'junk', 'derived', 'derived'])
        s = ''
        if kind == 'fn': s = self.fn(self.doc(), '', f'inline int f{u}() {{ return {u}; }}', f'{p}f{u}', f'{m}f{u}', u, f'{q}f{u}() --> int')
        if kind == 'over':
            s = self.fn(self.doc(), '', f'inline int f{u}(int) {{ return {u}; }}', f'{p}f{u}', f'{m}f{u}', u, f'{q}f{u}(int) --> int', 0, 3, '(1)')
            s += self.fn(self.doc(), '', f'inline int f{u}(int, int) {{ return {u}; }}', f'{p}f{u}', f'{m}f{u}', u, f'{q}f{u}(int, int) --> int', 1, 3)
            s += self.fn(self.doc(), '', f'inline int f{u}() {{ return {u}; }}', f'{p}f{u}', f'{m}f{u}', u, f'{q}f{u}() --> int', 2, 3)
        if kind == 'dflt': s = self.fn(self.doc(), '', f'inline int f{u}(int a = 1, std::string const &b = "\\"") {{ return a; }}', f'{p}f{u}', f'{m}f{u}', u, f'{q}f{u}(int, const std::string &) --> int', 2, 3)
        if kind == 'redecl':
            d = self.doc()
            s = self.fn(d, '', f'int f{u}(double x);', f'{p}f{u}', f'{m}f{u}', u, f'{q}f{u}(double) --> int', 0, 1, '(1.0)') + f'inline int f{u}(double x) {{ return {u}; }}\n'
        if kind == 'derived':
            # what overrides or hides a documented member has its own comment or none
            B, D, b = f'B{u}', f'K{u}', None
            fs = []
            for j in range(r.randint(1, 4)): fs.append((self.u(), r.choice(['virtual ', 'virtual ', '', 'static ']), r.choice(['', ' const'])))
            d = self.doc()
            s += (d.src() if d else '') + f'struct {B} {{\n\tvirtual ~{B}() {{}}\n'
            self.d += f't({f"{m}{B} doc"!r}, lambda: nz({p}{B}.__doc__), ret={d.exp if d else ""!r})\n'
            self.at(d, f'{m}{B}')
            sg = lambda c, v, k, cv: (k, f'{q}{c}::m{v}(){cv if k != "static " else ""} --> int')
            for v, k, cv in fs: s += self.fn(self.doc(), '\t', f'{k}int m{v}(){cv if k != "static " else ""} {{ return {v}; }}', f'{p}{B}.m{v}', f'{m}{B}.m{v}', v, sg(B, v, k, cv)[1], obj=f'{p}{B}().m{v}')
            d = self.doc(.4)
            s += '};\n' + (d.src() if d else '') + f'struct {D} : {B} {{\n'
            self.d += f't({f"{m}{D} doc"!r}, lambda: nz({p}{D}.__doc__), ret={d.exp if d else ""!r})\n'
            self.at(d, f'{m}{D}')
            for v, k, cv in fs:
                if r.random() < .7: s += self.fn(self.doc(.35), '\t', f'{k if k != "virtual " else ""}int m{v}(){cv if k != "static " else ""}{" override" if k == "virtual " and r.random() < .6 else ""} {{ return {v} + 1; }}', f'{p}{D}.m{v}', f'{m}{D}.m{v}', v + 1, sg(D, v, k, cv)[1], obj=f'{p}{D}().m{v}')
            s += '};\n'
        if kind == 'enum':
            d = self.doc()
            s = (d.src() if d else '') + f'{r.choice(["enum", "enum class"])} E{u} {{ /** D{self.u()}x */ e{u}_a, e{u}_b, ///< D{self.u()}x\n e{u}_c = 7 }};\n'
            self.d += f't({f"{m}E{u} doc"!r}, lambda: edoc({p}E{u}), ret={d.exp if d else ""!r})\nt({f"{m}E{u} works"!r}, lambda: int({p}E{u}.e{u}_c), ret=7)\n'
            self.at(d, f'{m}E{u}')
        if kind == 'cls':
            d = self.doc()
            if r.random() < .3: s += f'struct K{u};\n'
            s += (d.src() if d else '') + f'struct K{u} {{\n\t/// D{self.u()}x\n\tint x{u} = 1; ///< D{self.u()}x\n'
            self.d += f't({f"{m}K{u} doc"!r}, lambda: nz({p}K{u}.__doc__), ret={d.exp if d else ""!r})\n'
            self.at(d, f'{m}K{u}')
            c, cp = f'{p}K{u}', f'{m}K{u}'
            for j in range(r.randint(1, 5)):
                w = r.choice(['m', 'const', 'static', 'virtual', 'op', 'nested', 'enum', 'priv'])
                v = self.u()
                if w == 'm': s += self.fn(self.doc(), '\t', f'int m{v}() {{ return {v}; }}', f'{c}.m{v}', f'{cp}.m{v}', v, f'{q}K{u}::m{v}() --> int', obj=f'{c}().m{v}')
                if w == 'const': s += self.fn(self.doc(), '\t', f'int m{v}(int a) const {{ return {v}; }}', f'{c}.m{v}', f'{cp}.m{v}', v, f'{q}K{u}::m{v}(int) const --> int', call='(1)', obj=f'{c}().m{v}')
                if w == 'static': s += self.fn(self.doc(), '\t', f'static int m{v}() {{ return {v}; }}', f'{c}.m{v}', f'{cp}.m{v}', v, f'{q}K{u}::m{v}() --> int')
                if w == 'virtual': s += self.fn(self.doc(), '\t', f'virtual int m{v}() {{ return {v}; }}', f'{c}.m{v}', f'{cp}.m{v}', v, f'{q}K{u}::m{v}() --> int', obj=f'{c}().m{v}')
                if w == 'op' and f'K{u}::operator()' not in self.want:
                    self.want[f'K{u}::operator()'] = None
                    s += self.fn(self.doc(), '\t', f'int operator()(double a) {{ return {v}; }}', f'{c}.__call__', f'{cp}.__call__', v, f'{q}K{u}::operator()(double) --> int', call='(1)', obj=f'{c}()')
                if w == 'nested':
                    dd = self.doc()
                    s += (dd.src('\t') if dd else '') + f'\tstruct N{v} {{ int y = {v}; }};\n'
                    self.d += f't({f"{cp}.N{v} doc"!r}, lambda: nz({c}.N{v}.__doc__), ret={dd.exp if dd else ""!r})\n'
                    self.at(dd, f'{cp}.N{v}')
                if w == 'enum':
                    dd = self.doc()
                    s += (dd.src('\t') if dd else '') + f'\tenum F{v} {{ f{v} = 4 }};\n'
                    self.d += f't({f"{cp}.F{v} doc"!r}, lambda: edoc({c}.F{v}), ret={dd.exp if dd else ""!r})\n'
                    self.at(dd, f'{cp}.F{v}')
                if w == 'priv': s += f'private:\n\t/// D{self.u()}x "\n\tint p{v}() {{ return 1; }}\npublic:\n'
            s += '};\n'
        if kind == 'junk':
            # comments that belong to nothing bound
            s = r.choice([f'// D{u}x ordinary "\n\n', f'/* D{u}x ordinary block "; */\n', f'/// D{u}x\ntypedef int td{u};\n', f'/// D{u}x\n#define MAC{u} 1\n\n', f'/// D{u}x\nint var{u}_decl(int a) = delete;\n', f'namespace {{ /// D{u}x\nstruct U{u} {{}}; }}\n', f'/// D{u}x\ntemplate <class T> struct Tm{u} {{ T t; }};\n', f'/// D{u}x\nextern int ext{u};\n', f'/// D{u}x\nstruct Inc{u};\n', f'/// D{u}x lonely\n;\n'])
        if ns: s = 'namespace n {\n' + s + '}\n'
        self.h += s

    def driver(self):
        w = {k: sorted(v) for k, v in self.want.items() if v}
        return DRV + self.d + f't("every comment is where it belongs and nowhere else", lambda: (lambda g, w: {{k: (w.get(k), g.get(k)) for k in set(g) | set(w) if g.get(k) != w.get(k)}})(where(), {w!r}), ret={{}})\n'


def case(name, r, n, **kw):
    g = Gen(r, n, **kw)
    return name, g


def mk(name, r, n, eol='\n', **kw):
    def run(ctx):
        g = Gen(r, n, **kw)
        fs = files_of(g.h)
        if eol != '\n': fs['a.hpp'] = fs['a.hpp'].replace('\n', eol).encode()
        ctx.project(fs, DPRE + g.driver(), bind=[''])
        ctx.stat('comments_written', g.h.count('x') and sum(1 for v in g.want.values() if v))
    return name, run


def cases(check, rng, tier):
    s = []
    toks = [t for t in TOK]
    s.append(mk('each-token', random.Random(rng.random()), 90, tokens=toks))
    s.append(mk('crlf', random.Random(rng.random()), 30, eol='\r\n'))
    for i in range(nworlds(tier, 10, 150)): s.append(mk(f'random-{i}', random.Random(rng.random()), rng.randint(10, 40)))
    long = ' '.join(f'word{i} "q{i}" \\\\' for i in range(4000)) + ' end'
    lexp = norm(long)
    s.append(scen('long', f'/// {long}\ninline int f() {{ return 1; }}\n/** ' + '\n * '.join(f'line{i} "x"' for i in range(3000)) + '\n */\nstruct A { int x = 1; };\n',
                  DRV + f't("long line", lambda: fdoc(M.f, 0, 1)[0], ret={lexp!r})\nt("many lines", lambda: nz(M.A.__doc__), ret={" ".join(f"line{i} " + chr(34) + "x" + chr(34) for i in range(3000))!r})\nt("works", lambda: (M.f(), M.A().x), ret=(1, 1))\n'))
    s.append(scen('commands', r'''
namespace n {
/// \brief Short "one".
///
/// Longer text here.
/// \param a the "value" of a
/// \param[in] b other {value} \\ here
/// \return nothing much
/// \note be careful
/// \see elsewhere
/// - item one
/// - item two
inline int g(int a, int b) { return a; }
/** @brief Class text.
 *  @tparam none first
 *  @deprecated no more
 *  @remark last words
 */
struct S { int k = 1;
  /*! \returns the k
   *  \warning not really
   *  \pre before \post after
   */
  int m(int a) const { return k; } };
/// \returns first thing
enum class E { a };
}
''', DRV + r'''
t('commands of a function', lambda: fdoc(M.n.g, 0, 1)[0], ret='Short "one". Longer text here. the "value" of a other {value} \\ here nothing much be careful elsewhere - item one - item two')
t('commands of a class', lambda: nz(M.n.S.__doc__), ret='Class text. first no more last words')
t('commands of a member', lambda: fdoc(M.n.S.m, 0, 1)[0], ret='the k not really before after')
t('commands of an enum', lambda: edoc(M.n.E), ret='first thing')
'''))
    s.append(scen('one-line', r'''
/** D1x of f */ inline int f() { return 1; } /** D2x of g */ inline int g() { return 2; } inline int h() { return 3; }
/// D3x of k
inline int k() { return 4; } inline int l() { return 5; }
inline int o() { return 6; } ///< D4x
inline int p() { return 7; }
/// D5x detached

inline int q() { return 8; }

/// D6x first
/// D6x second

/// D7x separate
inline int rr() { return 9; }
/* plain */ /// D8x
inline int s() { return 10; } // D9x
inline int t_() { return 11; }
struct A { /** D10x */ int f() { return 1; } /** D11x */ static int g() { return 2; } int h() { return 3; } int v = 1; /**< D12x */ int i() { return 4; } };
/// D13x
namespace nn { inline int z() { return 12; } }
extern "C" { /// D14x
inline int cz() { return 13; } }
''', DRV + r'''
W = where()
at = lambda p: sorted(k for k, v in W.items() if any(x[0] == p for x in v))
t('two on one line', lambda: (at('mod.f'), at('mod.g'), at('mod.h')), ret=(['D1x'], ['D2x'], []))
t('following function on the same line', lambda: (at('mod.k'), at('mod.l')), ret=(['D3x'], []))
t('trailing comments do not move on', lambda: (at('mod.p'), at('mod.t_'), at('mod.A.i')), ret=([], [], []))
t('methods', lambda: (at('mod.A.f'), at('mod.A.g'), at('mod.A.h')), ret=(['D10x'], ['D11x'], []))
t('comment of a namespace is not that of its members', lambda: at('mod.nn.z'), ret=[])
t('extern C', lambda: at('mod.cz'), ret=['D14x'])
t('all work', lambda: [getattr(M, n)() for n in ('f', 'g', 'h', 'k', 'l', 'o', 'p', 'q', 'rr', 's', 't_', 'cz')], ret=[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13])
'''))
    s += worlds('world', seeds(rng, nworlds(tier, 3, 40)))
    return s


CHECK = Check('C17', 'exploration', 'doc string monitor with hostile comment text', 'one observation per doc string compared, and one per module for the places where every comment text appears; distinct: distinct (case, object)', cases,
              assumptions=['comment text is compared modulo white space; comment commands (\\param and its argument, \\c word, ...) are not text, the paragraphs of block commands are', 'clang decides which comment belongs to a declaration'])
