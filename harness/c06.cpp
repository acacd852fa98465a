// C06: sizes and levels of every term of a type grammar, and independence of the components of every composite.
// PART 0: sizes of all terms; 1..3: values; PFR=1: aggregates are reflected.
#include "fn.hpp"
#include <complex>
#include <map>
#include <deque>
using namespace fn;
enum class ES : unsigned char { a, b, SENTINEL = 9 };
enum class ER : signed char { a, b, SENTINEL_START = -4, SENTINEL_END = 3 , c = 50, d = 51};
enum class EP : unsigned char { a, b, c };
enum class EX : unsigned short { a, b };
struct PD { short x; std::uint8_t PADDING = 0; unsigned char y = 0; };
struct PD16 { int x; std::uint16_t PADDING = 0; short y = 0; };
struct MP { int x, y; };
struct Plain { int x; };        // not reflectable without PFR, no unused patterns with it
struct NonAgg { int x; NonAgg(int v = 0) : x(v) {} };
struct NonAggB { bool x; NonAggB(bool v = false) : x(v) {} };
// tuple-like class (user specialisations of tuple_size / tuple_element and member or free get)
template<class A, class B> struct tl { A a; B b; template<std::size_t I> auto& get() { if constexpr (I == 0) return a; else return b; } template<std::size_t I> const auto& get() const { if constexpr (I == 0) return a; else return b; } };
namespace ns { template<class A, class B> struct tlf { A a; B b; }; template<std::size_t I, class A, class B> auto& get(tlf<A, B>& x) { if constexpr (I == 0) return x.a; else return x.b; } template<std::size_t I, class A, class B> const auto& get(const tlf<A, B>& x) { if constexpr (I == 0) return x.a; else return x.b; } }
template<class A, class B> struct std::tuple_size<tl<A, B>> : std::integral_constant<std::size_t, 2> {};
template<class A, class B, std::size_t I> struct std::tuple_element<I, tl<A, B>> { using type = std::conditional_t<I == 0, A, B>; };
template<class A, class B> struct std::tuple_size<ns::tlf<A, B>> : std::integral_constant<std::size_t, 2> {};
template<class A, class B, std::size_t I> struct std::tuple_element<I, ns::tlf<A, B>> { using type = std::conditional_t<I == 0, A, B>; };
template<class A, class B> struct agg { A a; B b; };
template<class A, class B, class C> struct agg3 { A a; B b; C c; };
template<class A, class B, class C, class D> struct agg4 { A a; B b; C c; D d; };
template<class A, class B, class C, class D, class E, class F, class G> struct agg7 { A a; B b; C c; D d; E e; F f; G g; };
template<class A, class B, class C, class D, class E, class F, class G, class H, class I, class J, class K, class L> struct agg12 { A a; B b; C c; D d; E e; F f; G g; H h; I i; J j; K k; L l; };
template<class... A> struct tln { std::tuple<A...> t; template<std::size_t I> auto& get() { return std::get<I>(t); } template<std::size_t I> const auto& get() const { return std::get<I>(t); } };
template<class... A> struct std::tuple_size<tln<A...>> : std::integral_constant<std::size_t, sizeof...(A)> {};
template<class... A, std::size_t I> struct std::tuple_element<I, tln<A...>> { using type = std::tuple_element_t<I, std::tuple<A...>>; };
#ifdef OPTION_USE_PFR
constexpr bool pfr = OPTION_USE_PFR;
#else
constexpr bool pfr = false;
#endif
// ---- the documented number of levels of every term ----
template<class T> struct doc; // undefined: leaf missing
#define LEAF(Type, n) template<> struct doc<Type> { static constexpr std::uintmax_t v = n; }
LEAF(int, 0); LEAF(char, 0); LEAF(long, 0); LEAF(bool, 254); LEAF(float, 256); LEAF(double, 256); LEAF(int*, 512); LEAF(const char*, 512); LEAF(ES, 1); LEAF(ER, 8); LEAF(EP, 252); LEAF(EX, 1022);
LEAF(PO, 255); LEAF(std::string, 255); LEAF(std::wstring, 255); LEAF(std::vector<int>, 255); LEAF(std::vector<std::string>, 255); LEAF(std::string_view, 255); LEAF(std::unique_ptr<int>, 255); LEAF(std::unique_ptr<PO>, 255); LEAF(int MP::*, 255); LEAF(int (MP::*)(), 255);
LEAF(std::reference_wrapper<int>, 256); LEAF(PD, 255); LEAF(PD16, 65535); LEAF(std::complex<double>, 256); LEAF(std::complex<float>, 256); LEAF(L1, 3); LEAF(L0, 0); LEAF(NonAgg, 0); LEAF(NonAggB, 0); LEAF(Plain, 0); LEAF(long double, 0); LEAF(std::shared_ptr<int>, 0); using map_ii = std::map<int, int>; LEAF(map_ii, 0); LEAF(std::nullptr_t, 0); LEAF(int (*)(int), 512); LEAF(void*, 512);
template<class A, class B> struct doc<std::pair<A, B>> { static constexpr std::uintmax_t v = std::max(doc<A>::v, doc<B>::v); };
template<class... A> struct doc<std::tuple<A...>> { static constexpr std::uintmax_t v = std::max({std::uintmax_t(0), doc<A>::v...}); };
template<class A, std::size_t N> struct doc<std::array<A, N>> { static constexpr std::uintmax_t v = N ? doc<A>::v : 0; };
template<class A, class B> struct doc<tl<A, B>> : doc<std::pair<A, B>> {};
template<class A, class B> struct doc<ns::tlf<A, B>> : doc<std::pair<A, B>> {};
template<class A, class B> struct doc<agg<A, B>> { static constexpr std::uintmax_t v = pfr ? std::max(doc<A>::v, doc<B>::v) : 0; };
template<class A, class B, class C> struct doc<agg3<A, B, C>> { static constexpr std::uintmax_t v = pfr ? std::max({doc<A>::v, doc<B>::v, doc<C>::v}) : 0; };
template<class... A> struct doc<tln<A...>> : doc<std::tuple<A...>> {};
template<class A, class B, class C, class D> struct doc<agg4<A, B, C, D>> { static constexpr std::uintmax_t v = pfr ? doc<std::tuple<A, B, C, D>>::v : 0; };
template<class... A> struct doc<agg12<A...>> { static constexpr std::uintmax_t v = pfr ? doc<std::tuple<A...>>::v : 0; };
template<class A, class B, class C, class D, class E, class F, class G> struct doc<agg7<A, B, C, D, E, F, G>> { static constexpr std::uintmax_t v = pfr ? doc<std::tuple<A, B, C, D, E, F, G>>::v : 0; };
template<class A> struct doc<opt::option<A>> { static constexpr std::uintmax_t v = doc<A>::v >= 1 ? doc<A>::v - 1 : 254; };
template<class A> struct doc<opt::option<A&>> { static constexpr std::uintmax_t v = 256; };
template<class A> struct doc<opt::option<A&&>> { static constexpr std::uintmax_t v = 256; };

template<class T> std::string tname() { std::string s = __PRETTY_FUNCTION__; auto a = s.find("T = "); s = s.substr(a + 4); auto b = s.find("; std::string"); if (b == s.npos) b = s.rfind(']'); return s.substr(0, b); }
template<class T> void sizes() {
    constexpr std::uintmax_t want = doc<T>::v, got = opt::option_traits<T>::max_level;
    constexpr std::size_t s = sizeof(opt::option<T>);
    ++mc::stats.states; ++mc::stats.traces; ++mc::stats.transitions;
    if (want != got || (s == sizeof(T)) != (want >= 1) || alignof(opt::option<T>) != alignof(T)) {
        const std::string n = tname<T>(); mc::set_ctx(n.c_str());
        MC_CHECK(want == got, "number of levels"); MC_CHECK((s == sizeof(T)) == (want >= 1), "size of the option"); MC_CHECK(alignof(opt::option<T>) == alignof(T), "alignment of the option");
    }
    mc::stats.checks += 3;
    if (want == 0 && s != sizeof(T) + alignof(T)) { mc::set_ctx(tname<T>().c_str()); MC_CHECK(false, "a flag adds one alignment unit"); }
    if (mc::stats.states % 151 == 3) mc::sample(tname<T>() + ": levels " + std::to_string(got) + ", size " + std::to_string(s));
}
template<class... Ts> struct L_ {};
template<class... Ts> void sizes_of(L_<Ts...>) { (sizes<Ts>(), ...); }
template<template<class, class> class C, class A, class... B> void row(L_<B...>) { (sizes<C<A, B>>(), ...); }
template<template<class, class> class C, class... A, class LB> void cross(L_<A...>, LB lb) { (row<C, A>(lb), ...); }
template<template<class> class C, class... A> void each1(L_<A...>) { (sizes<C<A>>(), ...); }
template<class A, class B, class... C> void row3(L_<C...>) { (sizes<std::tuple<A, B, C>>(), ...); if constexpr (pfr) (sizes<agg3<A, B, C>>(), ...); }
template<class A, class... B, class LC> void plane3(L_<B...>, LC lc) { (row3<A, B>(lc), ...); }
template<class... A, class L> void cross3(L_<A...>, L l) { (plane3<A>(l, l), ...); }
template<class A> using arr1 = std::array<A, 1>; template<class A> using arr3 = std::array<A, 3>; template<class A> using arr0 = std::array<A, 0>;
template<class A> using o1 = opt::option<A>; template<class A> using o2 = o1<o1<A>>; template<class A> using o3 = o1<o2<A>>;
template<class A> using t1 = std::tuple<A>;
template<class A, class B> using t2 = std::tuple<A, B>; template<class A, class B> using opn = opt::option<std::pair<A, B>>; template<class A, class B> using po = std::pair<opt::option<A>, B>; template<class A, class B> using oto = opt::option<std::tuple<A, opt::option<B>>>;
template<class A, class B> using pp = std::pair<std::pair<A, B>, B>; template<class A, class B> using at = std::array<std::tuple<B, A>, 2>; template<class A, class B> using aa = agg<agg<A, B>, A>;
using leaves = L_<int, char, long, bool, float, double, int*, const char*, ES, ER, EP, EX, PO, std::string, std::wstring, std::vector<int>, std::vector<std::string>, std::string_view, std::unique_ptr<int>, std::unique_ptr<PO>, int MP::*, int (MP::*)(), std::reference_wrapper<int>, PD, PD16, std::complex<double>, std::complex<float>, L1, L0, NonAgg, NonAggB, Plain, long double, std::shared_ptr<int>, map_ii, std::nullptr_t, int (*)(int), void*>;
using mid = L_<int, bool, double, int*, ES, ER, EP, PO, std::string, std::string_view, std::unique_ptr<int>, int MP::*, L1, L0, PD, opt::option<int>, opt::option<bool>, opt::option<int&>, opt::option<ES>>;
using small = L_<int, bool, int*, ES, ER, std::string, opt::option<ES>>;

// ---- values ----
inline int objs[4] = {1, 2, 3, 4};
template<class T> struct val { static constexpr int N = 2; static T mk(int i) { return T(i); } static bool eq(const T& a, const T& b) { return a == b; } template<class F> static void comp(T&, F) {} };
template<> struct val<bool> { static constexpr int N = 2; static bool mk(int i) { return i != 0; } static bool eq(bool a, bool b) { return a == b; } template<class F> static void comp(bool&, F) {} };
#define VAL(Type, n, expr, eqx) template<> struct val<Type> { static constexpr int N = n; static Type mk(int i) { return expr; } static bool eq(Type const& a, Type const& b) { return eqx; } template<class F> static void comp(Type&, F) {} }
VAL(int, 3, (i == 2 ? -1 : i), a == b); VAL(int*, 2, (i ? &objs[i] : nullptr), a == b); VAL(const char*, 2, (i ? "x" : nullptr), a == b); VAL(ES, 2, ES(i), a == b); VAL(ER, 2, ER(50 + i), a == b); VAL(EP, 3, EP(i), a == b); VAL(EX, 2, EX(i), a == b); VAL(PO, 2, PO(i), a == b);
VAL(std::string, 2, std::string(std::size_t(i * 40), 's'), a == b); VAL(std::vector<int>, 2, std::vector<int>(std::size_t(i * 3), 4), a == b); VAL(std::string_view, 2, (i ? std::string_view("abc") : std::string_view()), a == b); VAL(std::unique_ptr<int>, 2, std::unique_ptr<int>(i ? new int(i) : nullptr), (!a == !b) && (!a || *a == *b));
VAL(int MP::*, 3, (i == 0 ? nullptr : i == 1 ? &MP::x : &MP::y), a == b); VAL(std::reference_wrapper<int>, 2, std::ref(objs[i]), &a.get() == &b.get()); VAL(PD, 2, (PD{short(i * 300)}), a.x == b.x); VAL(std::complex<double>, 3, std::complex<double>(i, -i), a == b); VAL(L1, 2, L1(i), a == b); VAL(L0, 2, L0(i), a == b); VAL(double, 3, (i == 2 ? -HUGE_VAL : i * 1.5), a == b);
template<class A, class B> struct val<std::pair<A, B>> { using T = std::pair<A, B>; static constexpr int N = val<A>::N * val<B>::N; static T mk(int i) { return T(val<A>::mk(i % val<A>::N), val<B>::mk(i / val<A>::N)); } static bool eq(const T& a, const T& b) { return val<A>::eq(a.first, b.first) && val<B>::eq(a.second, b.second); }
    template<class F> static void comp(T& t, F f) { f(t.first, 1, val<A>::N); f(t.second, val<A>::N, val<B>::N); } };
template<class A, class B> struct val<std::tuple<A, B>> { using T = std::tuple<A, B>; static constexpr int N = val<A>::N * val<B>::N; static T mk(int i) { return T(val<A>::mk(i % val<A>::N), val<B>::mk(i / val<A>::N)); } static bool eq(const T& a, const T& b) { return val<A>::eq(std::get<0>(a), std::get<0>(b)) && val<B>::eq(std::get<1>(a), std::get<1>(b)); }
    template<class F> static void comp(T& t, F f) { f(std::get<0>(t), 1, val<A>::N); f(std::get<1>(t), val<A>::N, val<B>::N); } };
template<class A, class B, class C> struct val<std::tuple<A, B, C>> { using T = std::tuple<A, B, C>; static constexpr int N = val<A>::N * val<B>::N * val<C>::N; static T mk(int i) { return T(val<A>::mk(i % val<A>::N), val<B>::mk(i / val<A>::N % val<B>::N), val<C>::mk(i / val<A>::N / val<B>::N)); } static bool eq(const T& a, const T& b) { return val<A>::eq(std::get<0>(a), std::get<0>(b)) && val<B>::eq(std::get<1>(a), std::get<1>(b)) && val<C>::eq(std::get<2>(a), std::get<2>(b)); }
    template<class F> static void comp(T& t, F f) { f(std::get<0>(t), 1, val<A>::N); f(std::get<1>(t), val<A>::N, val<B>::N); f(std::get<2>(t), val<A>::N * val<B>::N, val<C>::N); } };
template<class A, std::size_t n> struct val<std::array<A, n>> { using T = std::array<A, n>; static_assert(n == 1 || n == 2 || n == 3, ""); static constexpr int M = val<A>::N, N = n == 1 ? M : n == 2 ? M * M : M * M * M; static T mk(int i) { if constexpr (n == 1) return T{{val<A>::mk(i)}}; else if constexpr (n == 2) return T{{val<A>::mk(i % M), val<A>::mk(i / M)}}; else return T{{val<A>::mk(i % M), val<A>::mk(i / M % M), val<A>::mk(i / M / M)}}; }
    static bool eq(const T& a, const T& b) { for (std::size_t k = 0; k < n; ++k) if (!val<A>::eq(a[k], b[k])) return false; return true; } template<class F> static void comp(T& t, F f) { int r = 1; for (std::size_t k = 0; k < n; ++k, r *= M) f(t[k], r, M); } };
template<class T, class A, class B> struct val_ab { static constexpr int N = val<A>::N * val<B>::N; static T mk(int i) { return T{val<A>::mk(i % val<A>::N), val<B>::mk(i / val<A>::N)}; } static bool eq(const T& a, const T& b) { return val<A>::eq(a.a, b.a) && val<B>::eq(a.b, b.b); } template<class F> static void comp(T& t, F f) { f(t.a, 1, val<A>::N); f(t.b, val<A>::N, val<B>::N); } };
template<class A, class B> struct val<tl<A, B>> : val_ab<tl<A, B>, A, B> {}; template<class A, class B> struct val<ns::tlf<A, B>> : val_ab<ns::tlf<A, B>, A, B> {}; template<class A, class B> struct val<agg<A, B>> : val_ab<agg<A, B>, A, B> {};
template<class A, class B, class C> struct val<agg3<A, B, C>> { using T = agg3<A, B, C>; static constexpr int N = val<A>::N * val<B>::N * val<C>::N; static T mk(int i) { return T{val<A>::mk(i % val<A>::N), val<B>::mk(i / val<A>::N % val<B>::N), val<C>::mk(i / val<A>::N / val<B>::N)}; } static bool eq(const T& a, const T& b) { return val<A>::eq(a.a, b.a) && val<B>::eq(a.b, b.b) && val<C>::eq(a.c, b.c); } template<class F> static void comp(T& t, F f) { f(t.a, 1, val<A>::N); f(t.b, val<A>::N, val<B>::N); f(t.c, val<A>::N * val<B>::N, val<C>::N); } };
template<class A> struct val<opt::option<A>> { using T = opt::option<A>; static constexpr int N = val<A>::N + 1; static T mk(int i) { if (i == 0) return T(); return T(std::in_place, val<A>::mk(i - 1)); } static bool eq(const T& a, const T& b) { return a.has_value() == b.has_value() && (!a.has_value() || val<A>::eq(*a, *b)); } template<class F> static void comp(T&, F) {} };
template<class A> struct val<opt::option<A&>> { using T = opt::option<A&>; static constexpr int N = 3; static T mk(int i) { if (i == 0) return T(); return T(objs[i]); } static bool eq(const T& a, const T& b) { return a.ptr_or_null() == b.ptr_or_null(); } template<class F> static void comp(T&, F) {} };

template<class T> void values() {
    using V = val<T>; using O = opt::option<T>; using OO = opt::option<O>;
    mc::set_ctx(tname<T>().c_str());
    auto is = [](const O& o, int i) { return i < 0 ? !o.has_value() : o.has_value() && V::eq(*o, V::mk(i)); };
    auto put = [](int i) { return i < 0 ? O() : O(std::in_place, V::mk(i)); };
    for (int i = -1; i < V::N; ++i) {
        ++mc::stats.states; mc::clear(); mc::push("state", i);
        O o = put(i); MC_CHECK(is(o, i), "state of a composite after construction");
        { OO n(std::in_place, put(i)); MC_CHECK(n.has_value() && is(*n, i), "composite in a nested option"); n.reset(); MC_CHECK(!n.has_value(), "nested reset"); n.emplace(put(i)); MC_CHECK(n.has_value() && is(*n, i), "composite in a nested option"); n->reset(); MC_CHECK(n.has_value() && !n->has_value(), "inner reset"); mc::stats.transitions += 4; }
        if (i >= 0) { // write every component separately: the option stays engaged and only that component changes
            int ncomp = 0; V::comp(*o, [&](auto&, int, int) { ++ncomp; });
            for (int c = 0; c < ncomp; ++c) for (int v = 0; v < 8; ++v) {
                O w = put(i); int k = 0, want = -7;
                V::comp(*w, [&](auto& x, int radix, int n) { if (k++ == c && v < n) { using X = std::decay_t<decltype(x)>; X y = val<X>::mk(v); x = std::move(y); const int digit = i / radix % n; want = i + (v - digit) * radix; } });
                if (want < 0) continue;
                ++mc::stats.transitions; ++mc::stats.traces; mc::push("write component", c);
                MC_CHECK(w.has_value(), "writing a component emptied the option"); MC_CHECK(is(w, want), "writing a component"); mc::pop();
                O m(std::move(w)); MC_CHECK(is(m, want), "moving after writing a component");
            }
        }
        for (int j = -1; j < V::N; ++j) { O x = put(i), y = put(j); x = std::move(y); MC_CHECK(is(x, j), "assignment between composites"); O z = put(i), u = put(j); z.swap(u); MC_CHECK(is(z, j) && is(u, i), "swap of composites"); mc::stats.transitions += 2; ++mc::stats.traces; }
        if constexpr (std::is_copy_constructible_v<T>) { O c(o); MC_CHECK(is(c, i) && is(o, i), "copy of a composite"); ++mc::stats.transitions; }
        o.reset(); MC_CHECK(!o.has_value(), "reset of a composite"); if (i >= 0) { o.emplace(V::mk(i)); MC_CHECK(is(o, i), "emplace of a composite"); } mc::stats.transitions += 2;
    }
    if (mc::stats.states % 5 == 0) mc::sample_trace();
}
template<template<class, class> class C, class A, class... B> void vrow(L_<B...>) { (values<C<A, B>>(), ...); }
template<template<class, class> class C, class... A, class LB> void vcross(L_<A...>, LB lb) { (vrow<C, A>(lb), ...); }
template<class... Ts> void values_of(L_<Ts...>) { (values<Ts>(), ...); }
using v6 = L_<int, bool, ES, std::string, int*, opt::option<int>>;
// ---- wide composites: the best component at every position of every arity ----
template<class T> void wide_values() {
    mc::set_ctx(tname<T>().c_str()); using O = opt::option<T>; using OO = opt::option<O>; using OOO = opt::option<OO>;
    O e; MC_CHECK(!e.has_value(), "empty"); OO n(std::in_place); MC_CHECK(n && !*n, "engaged with an empty option"); OOO m(std::in_place, std::in_place); MC_CHECK(m && *m && !**m, "nested empty"); OOO m1(std::in_place); MC_CHECK(m1 && !*m1, "nested empty");
    OOO f(T{}); MC_CHECK(f && *f && **f, "value in nested options"); f->reset(); MC_CHECK(f && !*f, "inner reset"); f.emplace().emplace(T{}); MC_CHECK(f && *f && **f, "emplaced again"); (*f)->reset(); MC_CHECK(f && *f && !**f, "innermost reset");
    mc::stats.transitions += 9; ++mc::stats.states; ++mc::stats.traces;
}
template<std::size_t I, class T> auto& at_(T& t) { if constexpr (std::is_same_v<T, std::decay_t<T>>) { using std::get; if constexpr (!std::is_aggregate_v<T>) return get<I>(t); else return t.template get<I>(); } }
template<std::size_t K, std::size_t I, std::size_t J> using pick = std::conditional_t<K == I, int*, std::conditional_t<K == J, ES, std::conditional_t<K % 2, int, char>>>;
template<template<class...> class C, std::size_t I, std::size_t J, std::size_t... K> void wide1(std::index_sequence<K...>) {
    using T = C<pick<K, I, J>...>; sizes<T>();
    mc::set_ctx(tname<T>().c_str()); opt::option<T> o(T{}); mc::stats.transitions += sizeof...(K);
    ((at_<K>(*o) = pick<K, I, J>{}, MC_CHECK(o.has_value() && at_<K>(*o) == (pick<K, I, J>{}), "component written in place")), ...);
    wide_values<T>();
}
template<template<class...> class C, std::size_t N, std::size_t... P> void wide2(std::index_sequence<P...>) { (wide1<C, P / N, P % N>(std::make_index_sequence<N>{}), ...); }
template<template<class...> class C, std::size_t N> void wide() { wide2<C, N>(std::make_index_sequence<N * N>{}); }
using four = L_<int, ES, bool, int*>;
template<template<class...> class C, class A, class B, class X, class... D> void line4(L_<D...>) { (sizes<C<A, B, X, D>>(), ...); }
template<template<class...> class C, class A, class B, class... X> void plane4(L_<X...>) { (line4<C, A, B, X>(four{}), ...); }
template<template<class...> class C, class A, class... B> void cube4(L_<B...>) { (plane4<C, A, B>(four{}), ...); }
template<template<class...> class C, class... A> void hyper4(L_<A...>) { (cube4<C, A>(four{}), ...); }
template<class... A> using agg4v = agg4<A...>; // every 4-component composite over payloads with 0, 1, 254 and 512 levels
template<std::size_t I, std::size_t J, std::size_t... K> void wagg1(std::index_sequence<K...>) { using T = agg7<pick<K, I, J>...>; sizes<T>(); wide_values<T>(); }
template<std::size_t... P> void wagg(std::index_sequence<P...>) { (wagg1<P / 7, P % 7>(std::make_index_sequence<7>{}), ...); }
// ... and of arities far beyond the usual ones
template<template<class...> class C, std::size_t I, std::size_t J, std::size_t... K> void far1(std::index_sequence<K...>) { using T = C<pick<K, I, J>...>; sizes<T>(); if constexpr (I == 0 || I + 1 == sizeof...(K) || I == sizeof...(K) / 2) wide_values<T>(); }
template<template<class...> class C, std::size_t N, std::size_t... I> void far_at() { (far1<C, I, (I + N / 2) % N>(std::make_index_sequence<N>{}), ...); }
template<template<class...> class C, std::size_t N, std::size_t... I> void far(std::index_sequence<I...>) { far_at<C, N, I...>(); }
template<class... T> using agg12v = agg12<T...>;
int main() {
    mc::init();
#if PART == 0
    sizes_of(leaves{}); each1<o1>(leaves{}); each1<o2>(leaves{}); each1<o3>(leaves{}); each1<arr1>(leaves{}); each1<arr3>(leaves{}); each1<arr0>(mid{}); each1<t1>(leaves{});
    cross<std::pair>(leaves{}, leaves{});
    sizes<opt::option<int&>>(); sizes<opt::option<const std::string&>>(); sizes<opt::option<int&&>>(); sizes<o2<int&>>(); sizes<o3<int&>>(); sizes<std::pair<opt::option<int&>, int>>(); sizes<std::tuple<>>();
    MC_CHECK(sizeof(opt::option<int&>) == sizeof(int*) && sizeof(opt::option<int&&>) == sizeof(int*), "option of a reference is as large as a pointer");
    MC_CHECK(sizeof(opt::option<opt::option<opt::option<int>>>) == sizeof(opt::option<int>), "the flag carries further levels");
#elif PART == 1
    cross<t2>(mid{}, mid{}); cross<tl>(mid{}, mid{}); cross<ns::tlf>(mid{}, mid{}); cross<po>(mid{}, small{});
#elif PART == 2
    cross<opn>(mid{}, mid{}); cross<oto>(small{}, mid{}); cross<pp>(mid{}, small{}); cross<at>(small{}, small{}); cross3(small{}, small{});
#elif PART == 3
    vcross<std::pair>(v6{}, v6{}); values_of(L_<std::pair<double, ER>, std::pair<ER, double>, std::pair<PO, int>, std::pair<EP, EX>, std::pair<std::reference_wrapper<int>, int>, std::pair<int, std::unique_ptr<int>>, std::pair<L1, L0>, std::pair<L0, L1>, std::pair<PD, int>>{});
#elif PART == 4
    vcross<tl>(L_<int, bool, std::string, int*>{}, L_<int, bool, ES, opt::option<bool>>{}); vcross<ns::tlf>(L_<int, ER, std::string>{}, L_<int, bool, std::string_view>{}); vcross<std::tuple>(L_<int, bool, ES, std::string>{}, L_<int, double, opt::option<ES>>{});
    values_of(L_<std::tuple<int, bool, ES>, std::tuple<int, int, bool>, std::tuple<ES, int, int*>, std::tuple<bool, bool, bool>, std::tuple<std::string, bool, int>, std::tuple<L1, int, ES>, std::array<bool, 1>, std::array<bool, 3>, std::array<int, 2>, std::array<ES, 3>, std::array<std::string, 2>, std::array<int*, 2>, std::array<L1, 2>, std::array<L0, 2>, std::array<double, 2>>{});
#elif PART == 5
    values_of(L_<opt::option<std::pair<bool, int>>, std::pair<std::pair<int, bool>, ES>, std::pair<ES, std::pair<int, bool>>, std::tuple<std::pair<int, ES>, opt::option<bool>>, std::array<std::pair<int, bool>, 2>, std::array<opt::option<int>, 2>, std::array<opt::option<bool>, 2>, tl<std::pair<int, bool>, ES>, std::pair<opt::option<int&>, int>, std::pair<int, opt::option<int&>>, opt::option<std::tuple<int, opt::option<ES>>>, std::pair<opt::option<opt::option<ES>>, int>, std::complex<double>, std::pair<int, std::complex<double>>, std::pair<int, int MP::*>, agg<int, bool>, agg<bool, int>, agg<agg<int, ES>, bool>, agg3<int, ES, bool>>{});
#elif PART == 6
    cross<agg>(mid{}, mid{}); cross<aa>(small{}, mid{}); cross3(L_<int, bool, ES, int*, std::string>{}, L_<int, bool, ES, int*, std::string>{});
    vcross<agg>(L_<int, bool, ES, std::string, int*>{}, L_<int, bool, ES, opt::option<int>>{}); values_of(L_<agg3<int, bool, ES>, agg3<int, int, int>, agg3<bool, int*, int>, agg<agg<int, ES>, bool>, agg<std::pair<int, bool>, int>, opt::option<agg<int, bool>>, std::pair<agg<int, bool>, ES>, agg<opt::option<bool>, opt::option<int>>, agg<opt::option<int&>, int>>{});
#elif PART == 7
    wide<std::tuple, 4>(); wide<std::tuple, 5>(); wide<std::tuple, 7>();
#elif PART == 8
    hyper4<std::tuple>(four{}); wide<tln, 1>(); wide<tln, 3>(); wide<tln, 4>(); wide<tln, 6>();
#elif PART == 9
    wagg(std::make_index_sequence<49>{});
    hyper4<agg4v>(four{});
    far<agg12v, 12>(std::make_index_sequence<12>{});
#elif PART == 10
    far<std::tuple, 9>(std::make_index_sequence<9>{}); far<std::tuple, 12>(std::make_index_sequence<12>{}); far_at<std::tuple, 17, 0, 7, 8, 9, 15, 16>(); far_at<std::tuple, 33, 0, 16, 30, 31, 32>(); far_at<std::tuple, 70, 0, 35, 69>();
    far<tln, 10>(std::make_index_sequence<10>{}); far_at<tln, 20, 0, 8, 10, 15, 16, 19>();
#endif
    return mc::finish();
}
