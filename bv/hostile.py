"""Hostile but valid C++ for the tool: constructs that are rare, large, deep, recursive or unnamed. name -> (standard, text)"""

C = {}


def c(name, text, std='c++14'): C[name] = (std, text)


c('unnamed', '''
namespace n { struct { int a; } v1; union { int b; float c; } v2; enum { e1, e2 }; enum { e3 } v3; typedef struct { int d; } T1; typedef enum { t1, t2 } T2; typedef union { int x; } T3;
struct S { struct { int p; union { int q; struct { int r; }; }; }; enum { se1, se2 = 5 }; enum { se3 } w; struct { int s; } named, *ptr, arr[2]; union { int u; }; class { int hid; public: int vis; } k; typedef struct { int z; } In; In in; static struct { int st; } sst; };
inline T1 f(T1 a, T2 b, T3 *c) { return a; } inline decltype(v3) g(decltype(v1) &) { return e3; } inline auto lam() { return [](int x) { return x; }; } inline auto h() { struct L { int x; struct M { int y; } m; enum E { le } e; }; return L{}; } }
struct { struct { struct { int deep; } a; } b; } deepest; extern struct { int e; } ext; static const struct { int f; } arr[] = {{1}, {2}};
''')
c('lambdas', '''
#include <functional>
static auto l1 = [] {}; inline auto l2() { return [](auto x, auto... y) { return x; }; } template <typename F> struct Wrap { F f; Wrap(F x) : f(x) {} int call() { return 1; } }; template <typename F> Wrap<F> wrap(F f) { return Wrap<F>(f); }
inline int use() { auto w = wrap([](int a) { return a; }); auto v = wrap(wrap([] {})); struct Loc { int x; }; Wrap<Loc *> q(nullptr); Wrap<int (*)(Loc)> r(nullptr); return w.call() + v.call() + q.call() + r.call(); }
inline int dflt(int a = [] { return 3; }(), std::function<int(int)> f = [](int x) { return x; }) { return f(a); } struct M { int k = [] { return 4; }(); std::function<void()> cb = [] {}; static int s() { static auto q = [] { struct X { int y; }; return X{1}; }(); return q.y; } };
''')
c('templates', '''
namespace t { template <typename T> struct A { T v; typedef T type; template <typename U> struct In { U u; T t; template <typename V> V go(V v) { return v; } }; enum E { e0, e1 }; template <typename U> A &operator=(A<U> const &) { return *this; } template <typename U> operator A<U>() const { return {}; } static T st; friend bool operator==(A const &, A const &) { return true; } template <typename> friend struct A; virtual T vir(T a) { return a; } };
template <typename T> T A<T>::st; template <> struct A<void> { int none; }; template <typename T> struct A<T *> { T *p; A<T> deref() { return {}; } }; template <typename T> struct A<T &> {}; template <typename T, int N> struct A<T[N]> { T arr[N]; int size() { return N; } }; template <typename R, typename... P> struct A<R(P...)> { R call(P...); }; template <typename R, typename C> struct A<R C::*> { int memptr; };
template <typename... T> struct Tup; template <> struct Tup<> { int end; }; template <typename H, typename... T> struct Tup<H, T...> : Tup<T...> { H head; int len() const { return 1 + sizeof...(T); } };
template <template <typename...> class TT, typename... P> struct TTP { TT<P...> v; TTP *self() { return this; } }; template <int... N> struct Ints { static int sum() { return 0; } int arr[sizeof...(N) + 1]; }; template <char... Cs> struct Str {}; template <bool B, typename T = int> struct If { T t; }; template <typename T> struct If<false, T> { If<true, T> other() { return {}; } };
struct X { int m; int f(int) { return 1; } static int sf(int) { return 1; } static int sv; }; inline int glob(int) { return 1; } extern int gv;
template <int (*F)(int)> struct FP { int go() { return F(1); } }; template <int X::*M> struct MP { int k; }; template <int (X::*F)(int)> struct MFP { int k; }; template <int &R> struct Ref { int k; }; template <int *P> struct Ptr { int k; }; template <decltype(nullptr) N> struct Np { int k; }; template <X *P> struct XP { int k; };
template <unsigned long long N> struct Fact { static const unsigned long long v = N * Fact<N - 1>::v; Fact<N - 1> prev() { return {}; } }; template <> struct Fact<0> { static const unsigned long long v = 1; };
inline int use(A<int> a, A<A<A<int> > > b, A<int *> c, A<int[4]> d, A<int(double, char)> *e, A<int X::*> f, Tup<int, double, Tup<char, X> > g, TTP<A, int> h, TTP<Tup, int, X> i, Ints<1, -2, 3> j, If<false> k, FP<glob> l, MP<&X::m> *m, MFP<&X::f> *n, Ref<gv> *o, Ptr<nullptr> *p, Np<nullptr> *q, Fact<12> r, Str<'a', '\\'', '"'> s, A<void> t, A<X &> u, Ints<> v, FP<&X::sf> w, A<int>::In<double> x, A<int>::E y, XP<nullptr> *z) { A<double> cv = a; x.go(1); x.go('c'); return 1; }
template struct A<long>; extern template struct A<unsigned>; template <> struct A<short> { int spec; }; template <typename T> using Al = A<T>; inline Al<Al<char> > al(Al<bool> a) { return {}; } }
''')
c('nttp17', '''
template <auto V> struct Au { static constexpr auto v = V; int f() { return 1; } }; enum class E { a, b }; struct S { int x; static constexpr int y = 2; int m() { return 1; } }; inline void fn() {}
inline int use(Au<1>, Au<'c'>, Au<E::b>, Au<&S::m> *, Au<&S::x> *, Au<fn> *, Au<true>, Au<-5L>, Au<nullptr> *, Au<&S::y> *) { return 1; }
template <auto... Vs> struct Many { int n; }; inline Many<1, 'x', true> many(Many<> *) { return {}; } template <typename T, T... V> struct Seq { }; inline Seq<int, 1, 2> seq(Seq<char>) { return {}; }
namespace a::b::c { inline int deep = 1; struct Z { inline static int q = 2; [[nodiscard]] int r() const noexcept(sizeof(int) > 2) { return 1; } }; } template <typename... T> struct Fold { template <typename... U> static auto sum(U... u) { return (u + ... + 0); } }; inline int f2(Fold<int, int> f) { return f.sum(1, 2); }
template <typename T> struct Guide { Guide(T) {} }; template <typename T> Guide(T *) -> Guide<T>; inline auto gd() { return Guide{1}; } inline auto sb() { struct P { int a, b; }; auto [x, y] = P{1, 2}; return x + y; } template <typename T> constexpr bool isint = false; template <> constexpr bool isint<int> = true; inline int ic() { if constexpr (isint<int>) return 1; else return 2; }
''', 'c++17')
c('cxx20', '''
#include <compare>
template <typename T> concept Small = sizeof(T) <= 4 && requires(T t) { t + t; }; template <Small T> struct Con { T v; T f(T a) requires Small<T> { return a; } auto operator<=>(Con const &) const = default; }; inline auto ab(Small auto x) { return x; } inline int use() { return ab(1) + Con<int>{1}.f(2); } inline Con<int> mk(Con<short> *) { return {}; }
struct Lit { int a; char b; constexpr Lit(int x) : a(x), b('c') {} constexpr bool operator==(Lit const &) const = default; }; template <Lit L> struct NT { int g() const { return L.a; } }; inline int nt(NT<Lit(3)> x, NT<4> *y) { return x.g(); }
consteval int ce(int a) { return a; } constinit inline int ci = 4; struct Des { int x, y; int z : 3 = 2; }; inline Des des() { return {.x = 1, .y = 2}; } inline auto l = []<typename T>(T a) { return a; }; using L = decltype([] { return 1; }); inline int takes(L) { return 1; } template <typename T> struct Ex { explicit(sizeof(T) > 2) Ex(T) {} ~Ex() requires true {} }; inline Ex<int> ex() { return Ex<int>(1); } enum class UE { u1 }; struct UsingEnum { using enum UE; }; inline char8_t c8(char8_t c) { return c; } struct Agg { int a; [[no_unique_address]] Des d; };
''', 'c++20')
c('types', '''
#include <cstdarg>
#include <cstddef>
#include <atomic>
typedef int V4 __attribute__((vector_size(16))); typedef float Ext __attribute__((ext_vector_type(4))); inline V4 vec(V4 a) { return a; } inline Ext ext(Ext *a) { return *a; } inline __int128 i128(__int128 a, unsigned __int128 b) { return a; } inline _Complex double cx(_Complex double a) { return a; } inline __fp16 *hf(__fp16 *a) { return a; } inline long double ld(long double a) { return a; } inline char16_t c16(char16_t a, char32_t b, wchar_t c) { return a; } inline std::nullptr_t np(std::nullptr_t a) { return a; } inline void *vp(void const volatile *a) { return nullptr; } inline volatile int *vi(int volatile &a) { return &a; } inline int va(char const *f, ...) { return 1; } inline int val(va_list l) { return 1; } inline std::max_align_t *ma() { return nullptr; } inline _Atomic(int) *at(_Atomic(int) *a) { return a; }
typedef int Fn(int); typedef Fn *FnP; typedef int Arr[4]; typedef Arr *ArrP; typedef int (*(*Nest)(int (*)(int)))(double); struct S { Fn m; Fn operator+; int (S::*pm)(int); int S::*pd; Arr arr; Arr &rarr; FnP fp; Fn &rf; int *const *const &pp; Nest nest; V4 v; __int128 big; std::atomic<int> atom; int bits : 3; int : 4; int : 0; unsigned b2 : 2; volatile int vol; mutable int mut; const int con = 1; int &&rr; int flex[]; }; inline Fn *ret1() { return nullptr; } inline int (*ret2(int))[4] { return nullptr; } inline auto ret3() -> int (*)(int) { return nullptr; } inline Nest nn(Nest a, ArrP b, FnP c, Fn d, Arr e, Arr const &f) { return a; } inline decltype(auto) da(int &a) { return (a); } __attribute__((noreturn)) void nr(); __attribute__((visibility("hidden"), deprecated("x"))) inline int dep() { return 1; } [[deprecated]] inline int dep2() { return 1; } inline int restr(int *__restrict a) { return 1; } inline int asmf(int a) asm("renamed"); inline int asmf(int a) { asm("nop"); return a; } register_t_fwd(); 
'''.replace(' register_t_fwd();', ''))
c('incomplete', '''
#include <memory>
#include <vector>
namespace i { class F; struct G; union H; enum class O : int; enum P : char; template <typename T> struct Q; class R { class S; struct T; std::unique_ptr<S> p; std::shared_ptr<T> q; public: class U; R(); ~R(); U *u(); U const &cu(); F *f(F &, F *, F const &); Q<int> *q1(Q<F> &); O o(O); P *pp(P); std::shared_ptr<F> sf(std::shared_ptr<F> const &); std::vector<F> *vf(std::vector<F> *); }; F f1(); void f2(F); Q<Q<int> > f3(Q<R::U> &); extern F ef; extern Q<int> eq; struct V { static F sf; static Q<V> sq; F *p; F &r; V(F &x) : r(x) {} }; struct W; struct W *w(struct W *); struct Elab *el(struct Elab2 *); class R::U { public: F *x; class Y; Y *y(); }; struct Self { Self *s; Self &r; std::vector<Self> v; Self(Self &x) : r(x) {} Self *operator->() { return this; } }; template <typename T> struct Q { T *t; Q<T *> next(); }; }
''')
c('inherit', '''
namespace h { struct A { virtual ~A() {} virtual A *cov() { return this; } virtual void pv() = 0; int a; protected: virtual void prot(int) {} private: virtual void priv() {} virtual int pp() = 0; }; struct B : virtual A { B *cov() override { return this; } void pv() override {} int b; }; struct C : virtual public A { C *cov() override { return this; } using A::prot; }; struct D final : B, C { D *cov() final { return this; } void pv() final {} int pp() override { return 1; } using B::b; };
template <typename D> struct Crtp { D &self() { return static_cast<D &>(*this); } virtual D *clone() const { return nullptr; } friend D mk(D const &d) { return d; } }; struct E : Crtp<E> { E *clone() const override { return nullptr; } }; struct F : E, Crtp<F> {}; template <typename... B> struct Mix : B... { using B::operator()...; }; 
template <int N> struct Chain : Chain<N - 1> { virtual int f() { return N; } }; template <> struct Chain<0> { virtual ~Chain() {} virtual int f() { return 0; } }; struct Long : Chain<60> {}; struct Priv : private E, protected Chain<2> { using E::self; using Chain<2>::f; }; template <typename T> struct FromArg : T { using T::T; FromArg(FromArg const &) = default; int extra(T const &t) { return 1; } }; struct Ctor { Ctor(int, double = 2) {} Ctor(char const *, ...) {} template <typename T> Ctor(T &&, T *) {} }; inline FromArg<FromArg<Ctor> > fa(FromArg<D> *) { return 1; }
struct V0 { virtual int v(int) = 0; virtual int v(double) const = 0; virtual int operator()(int) = 0; virtual operator int() = 0; virtual V0 &operator=(V0 const &) = default; virtual int operator[](int) const { return 1; } virtual void noexc() noexcept {} virtual int &ref(int &) = 0; virtual int const &cref() const & { static int z; return z; } virtual void rr(int &&) {} virtual void arr(int[3]) {} virtual void fp(int (*)(int)) {} virtual int **pp2() { return nullptr; } virtual void dflt(int a = 3, V0 *p = nullptr) {} virtual ~V0() = 0; }; inline V0::~V0() {} struct V1 : V0 { int v(int) override { return 1; } private: int v(double) const override { return 1; } }; struct V2 : V1 { V2() = delete; }; struct Loop1; struct Loop2 { virtual Loop1 *l(); }; struct Loop1 : Loop2 { Loop1 *l() override { return this; } }; struct Out { struct In : Loop1 { struct In2 : Out2; }; }; }
'''.replace(' struct In2 : Out2;', '').replace('template <typename... B> struct Mix : B... { using B::operator()...; };', 'template <typename... B> struct Mix : B... {};'))
c('operators', '''
#include <iostream>
#include <cstddef>
namespace o { struct O { O operator+() const; O operator-() const; O operator*() const; O operator&(); O operator!() const; O operator~() const; O &operator++(); O operator++(int); O &operator--(); O operator--(int); O operator+(O const &) const; O operator-(int) const; O operator*(double) const; O operator/(O) const; O operator%(int) const; O operator^(int) const; O operator&(int) const; O operator|(int) const; bool operator<(O const &) const; bool operator>(O const &) const; bool operator<=(O const &) const; bool operator>=(O const &) const; bool operator==(O const &) const; bool operator!=(O const &) const; bool operator&&(O const &) const; bool operator||(O const &) const; O &operator=(O const &); O &operator=(O &&); O &operator=(int); O &operator+=(int); O &operator-=(int); O &operator*=(int); O &operator/=(int); O &operator%=(int); O &operator^=(int); O &operator&=(int); O &operator|=(int); O operator<<(int) const; O operator>>(int) const; O &operator<<=(int); O &operator>>=(int); O *operator->(); O &operator->*(int); O &operator,(int); int operator()(); int operator()(int, ...); template <typename T> int operator()(T, T); int &operator[](int); int operator[](O const &) const; operator int() const; operator O *(); template <typename T> operator T(); explicit operator bool() const; operator int (*)(int)(); static void *operator new(std::size_t); static void *operator new[](std::size_t); static void *operator new(std::size_t, void *); static void operator delete(void *); static void operator delete[](void *); };
O operator"" _lit(unsigned long long); O operator"" _s(char const *, std::size_t); template <char... C> O operator"" _t(); O operator+(int, O const &); bool operator==(int, O const &); std::ostream &operator<<(std::ostream &, O const &); std::istream &operator>>(std::istream &, O &); template <typename T> std::ostream &operator<<(std::ostream &, T *const &); template <typename Ch> std::basic_ostream<Ch> &operator<<(std::basic_ostream<Ch> &, O const *); }
'''.replace('operator int (*)(int)();', 'typedef int (*PF)(int); operator PF();'))
c('friends', '''
#include <ostream>
namespace f { template <typename T> struct A; template <typename T> std::ostream &operator<<(std::ostream &, A<T> const &); template <typename T> struct A { friend std::ostream &operator<<<T>(std::ostream &, A<T> const &); friend int in(A const &) { return 1; } template <typename U> friend int tf(U); friend struct Never; friend class ::Global; template <typename U> friend class B; int m() { return 1; } }; template <> struct A<int> { int m(); friend void hidden(A); }; struct S { friend std::ostream &operator<<(std::ostream &o, S const &) { return o; } friend S operator+(S, S) { return {}; } friend bool operator==(S const &, S const &) = default_; friend void only(S *); friend struct T; friend class U; }; inline int use(A<double> a, A<int> *b, A<A<S> > c) { return in(a) + in(c); } }
'''.replace(' friend class ::Global;', '').replace(' friend bool operator==(S const &, S const &) = default_;', ''))
c('macros', '''
#define DECL(n) struct n { int n##_v; n *n##_m(n const &x) { return this; } enum n##_e { n##_a, n##_b }; }; inline n n##_f(n a = n()) { return a; }
#define NS(a, b) namespace a { b }
#define EMPTY
#define REP4(x) x(A) x(B) x(C) x(D)
#define public_ public
#define STR(x) #x
DECL(M1) NS(q, DECL(M2) NS(r, DECL(M3))) EMPTY REP4(DECL) class P { public_: int x; STR_DECL }; NS(s, NS(t, NS(u, inline int f(int a = __LINE__, char const *b = __FILE__ STR(x "y\\\\"), char const *c = __DATE__) { return a; } inline char const *fn() { return __PRETTY_FUNCTION__; })))
#line 4000 "not/a/file.hpp"
struct AfterLine { int x; DECL(InLine) }; inline int al(AfterLine *) { return 1; }
#line 1 ""
struct EmptyName { int y; };
#line 7 "weird \\"quoted\\" name.hpp"
struct Quoted { int z; }; inline Quoted fq() { return {}; }
'''.replace(' STR_DECL', ''))
c('defaults', '''
#include <string>
#include <vector>
#include <map>
namespace d { enum E { x, y }; struct P { int a, b; P(int i = 1, int j = 2) : a(i), b(j) {} static P const &zero(); static const int K = 4; operator int() const { return a; } }; template <typename T> struct W { T t; W(T u = T(), T *p = nullptr) : t(u) {} static W mk(W a = W(), W b = W(T())) { return a; } }; extern int gl; template <typename T> T val() { return T(); }
inline int f(int a = 1 + 2 * 3, double b = 1e-300, char c = '\\'', char const *s = "q\\"\\\\\\n\\x41" "cat" R"x(raw")x", std::string t = std::string(3, 'x'), P p = P(1), P const &q = P::zero(), E e = y, int g = P::K, int h = static_cast<int>(2.5), int i = sizeof(P), bool j = !true, int k = gl, int l = val<int>(), W<int> m = W<int>::mk(), std::vector<int> v = {1, 2, 3}, std::map<int, P> mp = {{1, P(2)}}, void *n = nullptr, int o = x ? 1 : 2, int r = (1, 2), int u = [] { return 1; }(), long long ll = -9223372036854775807LL - 1, unsigned char uc = 255, float fl = 1.f / 3, char16_t c16 = u'x', wchar_t const *ws = L"w\\u00e9", char const *u8 = u8"\\u00e9", int __x = alignof(P), decltype(gl) y2 = gl) { return 1; } template <typename T = int, int N = 3> struct D { T a = N; void m(T x = N, D *d = nullptr, D<T, N + 1> *e = 0) {} }; inline int use(D<> a = D<>(), D<char, 5> b = {}) { a.m(); return 1; } struct Init { int a = 1, b{2}, c = a + b; P p{3, 4}; std::string s = "abc"; E e = x; int arr[3] = {1, 2, 3}; Init *self = this; W<P> w{}; Init(int q = 1, int = 2, int = 3, int = 4, int = 5, int = 6, int = 7, int = 8) {} virtual int v(int = 1, int = 2, int = 3) { return 1; } }; }
''')
c('namespaces', '''
inline namespace i1 { inline namespace i2 { namespace a { inline namespace b { namespace { struct Anon { int x; }; inline int af() { return 1; } } struct T { int v; Anon *an; }; inline int f(T, Anon *) { return 1; } } } } } namespace a = i1::i2::a; namespace alias = ::a::b; namespace alias2 = alias; using namespace alias; using alias::T; namespace z { using ::a::T; using namespace ::a::b; typedef T TT; inline TT g(alias2::T) { return {}; } namespace z { namespace z { struct z { struct z2 { int q; }; z *me() { return this; } }; inline z h(z::z2) { return {}; } } } } extern "C" { namespace cn { struct CS { int x; }; int cf(struct CS *); extern "C++" { template <typename T> struct CT { T t; }; } } } namespace std { struct mine { int x; }; } namespace n1 { namespace n2 { namespace n3 { namespace n4 { namespace n5 { namespace n6 { struct Deep { int d; }; } } } } } } namespace n1 { inline n2::n3::n4::n5::n6::Deep dp() { return {}; } } namespace __reserved { struct _X { int __y; int _Z(); }; } namespace class_ { struct def { int None; int self; int lambda_; int import_() { return 1; } }; inline int pass(int from, int in, int is, int with) { return 1; } }
'''.replace('namespace a = i1::i2::a; ', ''))
c('python-names', '''
namespace None { struct True { int False; int and_; int def; int is; int lambda; int yield; int None() { return 1; } static int pass(int from, int global, int nonlocal) { return 1; } enum E { exec, print, raise, del }; }; inline int assert_(True &as) { return 1; } inline int with(int except) { return 1; } namespace global { inline int nonlocal(int a) { return 1; } namespace in { struct M { int cl; int o; int a0; int std; int pybind11; }; } } namespace import { namespace from { enum class lambda { elif, async, await }; } } struct __init__ { int __class__; int __dict__() { return 1; } int __eq__; }; inline int __import__(__init__ *__name__) { return 1; } struct class_ { class_ *type() { return this; } int assign(int) { return 1; } int __str__() { return 1; } }; }
''')
c('stl', '''
#include <vector>
#include <map>
#include <set>
#include <list>
#include <deque>
#include <array>
#include <tuple>
#include <memory>
#include <functional>
#include <unordered_map>
#include <bitset>
#include <complex>
#include <utility>
namespace s { struct A { int x; bool operator<(A const &) const { return true; } }; inline int f(std::vector<A> const &, std::vector<std::vector<int> > &, std::map<std::string, std::vector<A> > *, std::set<int>, std::list<double>, std::deque<A *>, std::array<int, 4>, std::tuple<int, A, std::string>, std::shared_ptr<A>, std::unique_ptr<A>, std::weak_ptr<A>, std::function<A(A const &, int)>, std::unordered_map<int, A>, std::bitset<8>, std::complex<double>, std::pair<int, std::pair<A, A> >, std::initializer_list<int>, std::vector<std::shared_ptr<A> >, std::shared_ptr<std::vector<A> >, std::map<int, std::map<int, int> >, std::vector<bool>, std::reference_wrapper<A>) { std::vector<A> a; a.push_back(A()); std::map<std::string, A> m; m["x"]; std::set<int> s; s.insert(1); std::list<A> l; l.size(); return 1; } struct H { std::vector<A> v; std::map<int, A> m; std::unique_ptr<A> u; std::array<A, 2> arr; std::tuple<> t; std::vector<A>::iterator it; std::function<void()> cb; }; struct It { int *begin(); int *end(); int const *begin() const; typedef int value_type; }; }
''')
c('big-std', '''
#include <string>
#include <vector>
#include <map>
#include <thread>
#include <mutex>
#include <chrono>
#include <regex>
#include <sstream>
#include <fstream>
#include <future>
#include <random>
#include <valarray>
#include <algorithm>
#include <exception>
#include <locale>
struct Ex : std::runtime_error { Ex() : std::runtime_error("x") {} char const *what() const noexcept override { return "y"; } }; inline std::thread::id tid(std::thread &t, std::mutex &m, std::chrono::milliseconds ms, std::regex const &re, std::ostream &os, std::ifstream &is, std::future<int> *fu, std::mt19937 &g, std::valarray<double> const &va, std::exception_ptr ep, std::locale l) { return t.get_id(); } struct St : std::ostream { St(); using std::ostream::operator<<; }; struct Vec : std::vector<std::string> { using std::vector<std::string>::vector; Vec(Vec const &) = default; };
''')
c('comments', '''
/// unterminated @param \\\\ "quote" %s {0} {{ }} \\{ @ \\ x
namespace c { /** <b>html <a href="x"> &amp; &#x41; </b> @code int x; @endcode @verbatim * / @endverbatim \\f$ x \\f$ @param @return @tparam @throws */ struct A { /**< trailing */ int x; ///< also
/*! */ int y; /** @brief */ int f(int a /**< [in] inner */); /***/ int g(); /** \\ */ int h(); /// \\p
int i(); }; /**
 * @param x
   @param [in,out] y z @cond @endcond @dot @msc @internal \\unknowncommand @@ \\@
 */ inline int k(int x, int y) { return 1; } /** )" )doc" ??/ ??' \\u0000 \\x */ inline int raw() { return 1; } //! @copydoc k
inline int l() { return 1; } /** @verbatim unterminated */ enum E { /** e */ e0 /**< t */, e1 ///< last
}; }
''')
c('exceptions', '''
namespace x { struct E { ~E() noexcept(false) {} E() try : a(1) {} catch (...) { throw; } int a; void t() throw(); void u() noexcept(noexcept(a)); template <typename T> void v() noexcept(sizeof(T) > 1) {} }; inline void f() throw() {} struct N { N() noexcept = default; N(N const &) noexcept(false) = default; N(N &&) = default; N &operator=(N &&) = delete; ~N() = default; }; struct DelD { ~DelD() = delete; int x; }; struct PrivD { static PrivD *mk(); private: ~PrivD(); }; struct DelAll { DelAll() = delete; DelAll(DelAll const &) = delete; DelAll &operator=(DelAll const &) = delete; void *operator new(unsigned long) = delete; int m() = delete_; }; union U { U() {} ~U() {} int a; E e; }; struct HasU { U u; DelD *d; PrivD &p; }; struct Vd { virtual ~Vd() = delete; virtual void m() = delete; }; }
'''.replace(' int m() = delete_;', ''))
c('enums', '''
enum A { a0 = -2147483647 - 1, a1 = 2147483647 }; enum B : unsigned long long { b0 = 18446744073709551615ull }; enum class C : char { c0 = 'x', c1 = '\\'', c2 = '"' }; enum class D : bool { f, t }; enum class Empty {}; enum EmptyU {}; enum class Self { s0, s1 = s0, s2 = s1 + 1 }; enum : int { unn }; enum class Fwd : short; enum class Fwd : short { fw }; struct H { enum I { i0 }; enum class J : long { j = sizeof(H *) }; enum { k0 = i0 }; template <typename T> struct T2 { enum L { l0 = sizeof(T) }; enum class M : T { m0 }; }; }; inline H::T2<int>::L e(H::T2<char>::M, H::I i = H::i0, H::J j = H::J::j, A = (A)5, C c = C('q')) { return H::T2<int>::l0; } enum class Attr { x [[deprecated]], y __attribute__((unavailable)) = 3 }; template <A V> struct OnE { int k; }; inline OnE<a1> *oe(OnE<(A)77> *) { return nullptr; } namespace { enum Hid { h0 }; } enum class Big { v = 1 << 30, w = -(1 << 30) }; typedef enum Tdef { td0 } Tdef; typedef enum { un0 } Un;
''')
c('long', 'namespace l { struct ' + 'V' * 4000 + ' { int ' + 'w' * 3000 + '; }; inline int ' + 'f' * 3000 + '(' + ', '.join(f'int a{i}' for i in range(120)) + ') { return 1; } ' + ''.join(f'struct S{i} {{ int x; int m(S{max(0, i - 1)} &); }}; inline int f{i}(S{i} *p) {{ return 1; }} ' for i in range(120)) + 'enum Big { ' + ', '.join(f'e{i}' for i in range(1500)) + ' }; }')
c('nested-deep', ''.join(f'struct N{i} {{ int v{i}; ' for i in range(120)) + '};' * 120 + '\nnamespace x { ' + ''.join(f'namespace n{i} {{ ' for i in range(80)) + 'struct End { int e; };' + '}' * 81)
c('template-deep', 'template <typename T> struct B { T *p; B<T *> const &up(B const &); };\n#define B4(x) B<B<B<B<x> > > >\n#define B16(x) B4(B4(B4(B4(x))))\ninline int f(B16(B16(int)) a) { return 1; }\ntemplate <int N> struct R { R<N - 1> r; int v() { return N; } }; template <> struct R<0> { int z; }; inline R<90> rr() { return {}; }\ntemplate <typename... T> struct P { int n; }; inline P<' + ', '.join(['int', 'char', 'double'] * 40) + '> pp() { return {}; }')
c('circular', '''
namespace c { struct A; struct B; template <typename T> struct W { T *t; }; struct A { B *b(B &, W<B> const &); struct In; In *in(); virtual A *v(B *) { return this; } }; struct B : A { A &a(W<A>, W<W<A> >); struct In2 { A::In *x; B *y(A::In const &); }; A *v(B *) override { return this; } }; struct A::In : B { In2 *z(In &); struct Deep : In2 { B::In2 m; }; }; template <typename T> struct Node { Node<T> *next; T val; Node *self(Node const &, Node<Node<T> > *) { return this; } }; inline Node<Node<A> > nn(Node<B> &) { return {}; } template <typename T> struct X; template <typename T> struct Y : X<Y<T> > { T t; }; template <typename T> struct X { T *y; }; inline Y<int> yy(X<Y<int> > &) { return {}; } struct Rec : W<Rec>, Node<Rec *> { Rec *r(Rec *(*)(Rec *)); }; }
''')
c('fields', '''
#include <string>
#include <memory>
namespace fi { struct NA { NA &operator=(NA const &) = delete; int x; }; struct A { const int a = 1; int &b; int *c; int d[3]; int e : 3; NA f; const NA g{}; std::unique_ptr<int> h; std::string i; static int j; static const int k = 1; static constexpr double l = 2; mutable int m; volatile int n; A *o; A const &p; int A::*q; void (A::*r)(); void (*s)(); union { int t; char u; }; struct { int v; }; enum { w } x; enum class Y { z } y; decltype(nullptr) aa; const std::string bb; std::shared_ptr<A> cc; thread_local static int dd; alignas(64) int ee; int ff [[gnu::aligned(8)]]; struct Inc; Inc *gg; std::unique_ptr<Inc> *hh; char const *ii; bool jj : 1; A(int &x) : b(x), p(*this) {} }; union U { int a; struct { int b, c; }; double d[2]; A *e; }; template <typename T> struct F { T t; T const ct{}; T *pt; T at[2]; static T st; typename T::value_type vt; std::unique_ptr<T> up; }; inline F<std::string> *fs(F<std::string> a) { return nullptr; } }
''')
c('c-style', '''
typedef struct list { struct list *next; int (*cmp)(const void *, const void *); union { int i; float f; } u; enum { K1, K2 } kind; } list, *plist; extern plist head; list *mk(plist, struct list **, list[]); typedef void (*cb)(int, void *); int reg(cb, void *); struct opaque; typedef struct opaque *handle; handle open_(const char *, ...); static int counter; const char *const names[] = {"a", 0}; int main_(int argc, char **argv, char *envp[]); struct flex { int n; char data[]; }; struct bits { unsigned a : 1, : 2, b : 3; }; void noproto(); struct stat_ { int stat_; }; int stat_(struct stat_ *);
''')
c('attrs', '''
struct __attribute__((packed)) P { char a; int b; int &r; }; struct alignas(32) Al { int x; }; class [[gnu::visibility("hidden")]] Hid { public: int x; }; inline __attribute__((always_inline)) int ai(int a) { return a; } __attribute__((weak)) int wk(); inline int un(int __attribute__((unused)) a, [[maybe_unused]] int b) { return 1; } struct [[deprecated("old \\"x\\"")]] Old { [[deprecated]] int f() { return 1; } }; inline Old *oo() { return nullptr; } int ov(int) __attribute__((overloadable_no)); inline int en(int a) __attribute__((enable_if(a > 0, "pos"))) { return 1; } inline int en(int a) { return 2; } template <typename T> struct [[nodiscard]] ND { T t; }; inline ND<P> nd() __attribute__((warn_unused_result)); 
'''.replace(' int ov(int) __attribute__((overloadable_no));', '').replace(' inline ND<P> nd() __attribute__((warn_unused_result));', ' ND<int> nd() __attribute__((warn_unused_result));'))
c('sfinae', '''
#include <type_traits>
#include <iterator>
namespace sf { template <typename T> typename std::enable_if<std::is_integral<T>::value, T>::type f(T t) { return t; } template <typename T> typename std::enable_if<!std::is_integral<T>::value, T>::type f(T t) { return t; } template <typename T, typename = void> struct Has { static const bool v = false; }; template <typename T> struct Has<T, decltype(void(std::declval<T>().x))> { static const bool v = true; int k; }; struct X { int x; template <typename T, typename = std::enable_if_t<(sizeof(T) > 1)>> X(T) {} X() {} template <typename T> auto g(T t) -> decltype(t + 1) { return t + 1; } template <typename T> struct Rebind { typedef X other; }; template <typename T> auto h(T &&t) const { return std::forward<T>(t); } template <typename... A> X &emplace(A &&...a) { return *this; } template <int N> int n() { return N; } template <typename T> static T cast(X const &) { return T(); } template <template <typename> class C> int tt() { return 1; } }; inline int use() { X x; x.g(1); x.g(2.5); x.h(1); int i = 1; x.h(i); x.h(x); x.emplace(1, 'c', x); x.n<3>(); x.n<-4>(); X::cast<int>(x); x.tt<std::add_const>(); return f(1) + (int)f(2.0) + Has<X>::v + Has<int>::v; } inline Has<X> hx(Has<int> *) { return {}; } template <typename T> using Vd = void; template <typename T> struct Dep { typename T::type a; typename T::template In<int> b; void m(typename T::type) {} using typename T::type; }; struct Prov { typedef int type; template <typename U> struct In { U u; }; }; inline Dep<Prov> dp(Dep<Prov> const &d) { return d; } }
'''.replace(' using typename T::type;', ''))
c('empty', '')
c('only-declarations', 'struct A; struct B; namespace n {} namespace m { namespace k {} } ; ; ; extern "C" {} template <typename T> struct C; template <typename T> void f(T); using namespace n; static_assert(1, ""); typedef int I;')
