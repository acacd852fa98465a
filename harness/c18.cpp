// C18: which special members an option has, whether they are trivial and whether they are noexcept, for every combination of
// the payload's special members, alone and inside composites; and that what is advertised works.
// PART 0..6: the 1600 payload classes; 7: ordinary types, 8: swap.
#include "special.hpp"
#include <any>
#include <atomic>
#include <deque>
#include <future>
#include <map>
#include <mutex>
#include <optional>
#include <thread>
#include <variant>
using namespace fn;
namespace {
constexpr const char* names[] = {
    "default constructible", "nothrow default constructible", "destructible", "nothrow destructible", "trivially destructible",
    "copy constructible", "nothrow copy constructible", "trivially copy constructible",
    "move constructible", "nothrow move constructible", "trivially move constructible",
    "copy assignable", "nothrow copy assignable", "trivially copy assignable",
    "move assignable", "nothrow move assignable", "trivially move assignable",
    "trivially copyable", "copyable from const rvalue", "assignable from const rvalue", "constructible from none", "nothrow constructible from none", "assignable from none", "nothrow assignable from none",
    "converts to bool explicitly", "converts to bool implicitly", "converts to the payload"};
constexpr int N = sizeof(names) / sizeof(*names);
using props = std::array<bool, N>;
template<class T> constexpr bool dt = std::is_trivially_destructible_v<T>;
template<class O, class T> constexpr props actual() {
    return {std::is_default_constructible_v<O>, std::is_nothrow_default_constructible_v<O>, std::is_destructible_v<O>, std::is_nothrow_destructible_v<O>, std::is_trivially_destructible_v<O>,
        std::is_copy_constructible_v<O>, std::is_nothrow_copy_constructible_v<O>, std::is_trivially_copy_constructible_v<O>,
        std::is_move_constructible_v<O>, std::is_nothrow_move_constructible_v<O>, std::is_trivially_move_constructible_v<O>,
        std::is_copy_assignable_v<O>, std::is_nothrow_copy_assignable_v<O>, std::is_trivially_copy_assignable_v<O>,
        std::is_move_assignable_v<O>, std::is_nothrow_move_assignable_v<O>, std::is_trivially_move_assignable_v<O>,
        std::is_trivially_copyable_v<O>, std::is_constructible_v<O, const O&&>, std::is_assignable_v<O&, const O&&>,
        std::is_constructible_v<O, opt::none_t> && std::is_convertible_v<opt::none_t, O>, std::is_nothrow_constructible_v<O, opt::none_t>, std::is_assignable_v<O&, opt::none_t>, std::is_nothrow_assignable_v<O&, opt::none_t>,
        std::is_constructible_v<bool, const O&>, std::is_convertible_v<const O&, bool>, std::is_convertible_v<O&, T>};
}
// What the payload permits.  A copyable payload whose move operations are deleted is moved by copying, as everywhere in the language.
template<class T> struct permits {
    static constexpr bool cc = std::is_copy_constructible_v<T>, own_mc = std::is_move_constructible_v<T>, ca = cc && std::is_copy_assignable_v<T>, own_ma = own_mc && std::is_move_assignable_v<T>;
    static constexpr bool mc = own_mc || cc, ma = own_ma || ca;
    static constexpr bool ncc = std::is_nothrow_copy_constructible_v<T>, nmc = own_mc ? std::is_nothrow_move_constructible_v<T> : ncc;
    static constexpr bool tcc = std::is_trivially_copy_constructible_v<T>, tmc = own_mc ? std::is_trivially_move_constructible_v<T> : tcc;
    // an assignment may also have to construct or destroy the payload
    static constexpr bool nca = ca && ncc && std::is_nothrow_copy_assignable_v<T>, nma = own_ma ? nmc && std::is_nothrow_move_assignable_v<T> : nca;
    static constexpr bool tca = ca && std::is_trivially_copy_assignable_v<T> && tcc && dt<T>, tma = own_ma ? std::is_trivially_move_assignable_v<T> && tmc && dt<T> : tca;
    static constexpr bool settled = own_mc == mc && own_ma == ma;    // no operation falls back to another one
};
template<class T> constexpr props expected() {
    using p = permits<T>;
    return {true, true, true, true, dt<T>, p::cc, p::ncc, p::tcc, p::mc, p::nmc, p::tmc, p::ca, p::nca, p::tca, p::ma, p::nma, p::tma,
        false, false, false, true, true, true, true, true, false, false};
}
// TRIV: whether triviality is settled by the payload alone
template<class O, class T, bool TRIV = true> void compare(const char* what) {
    ++mc::stats.states; mc::clear(); mc::push(what);
    static constexpr props a = actual<O, T>(), e = expected<T>();
    for (int i = 0; i < N; ++i) {
        ++mc::stats.transitions;
        if (i >= 17 && i < 20) continue;                                        // below
        if (i == 26) continue;
        if (!TRIV && (i == 7 || i == 10 || i == 13 || i == 16)) continue;
        ++mc::stats.checks;
        if (a[std::size_t(i)] != e[std::size_t(i)]) mc::fail(std::string(what) + ": is " + names[i] + (a[std::size_t(i)] ? " though the payload is not" : " should hold as the payload permits it"), names[i]);
    }
    using p = permits<T>;
    if (TRIV && p::settled && p::cc && p::mc && p::ca && p::ma) MC_CHECK(a[17] == (dt<T> && p::tcc && p::tmc && p::tca && p::tma), "trivially copyable exactly if all its operations are");
    // a const rvalue can only be copied from
    if (p::cc && p::own_mc) MC_CHECK(a[18], "constructible from a const rvalue");
    if (!p::cc) MC_CHECK(!a[18], "not constructible from a const rvalue if not copyable");
    if (p::ca && p::own_ma) MC_CHECK(a[19], "assignable from a const rvalue");
    if (!p::cc) MC_CHECK(!a[19], "not assignable from a const rvalue if not copyable");
    ++mc::stats.traces;
}
template<class T> struct holder { T m; };
template<class O> constexpr bool members_noexcept() {
    using C = const O;
    return noexcept(std::declval<O&>().reset()) && noexcept(std::declval<C&>().has_value()) && noexcept(bool(std::declval<C&>())) && noexcept(std::declval<O&>().begin()) && noexcept(std::declval<C&>().begin())
        && noexcept(std::declval<O&>().end()) && noexcept(std::declval<C&>().end()) && noexcept(std::declval<O&>().get()) && noexcept(std::declval<C&>().get()) && noexcept(std::declval<O>().get()) && noexcept(std::declval<C>().get())
        && noexcept(*std::declval<O&>()) && noexcept(*std::declval<C&>()) && noexcept(*std::declval<O>()) && noexcept(*std::declval<C>())
        && noexcept(std::declval<O&>().operator->()) && noexcept(std::declval<C&>().operator->()) && noexcept(std::declval<O&>().ptr_or_null()) && noexcept(std::declval<C&>().ptr_or_null())
        && noexcept(std::declval<O&>().get_unchecked()) && noexcept(std::declval<C&>().get_unchecked()) && noexcept(std::declval<C&>() == opt::none) && noexcept(opt::none != std::declval<C&>());
}
template<class T> void whole(bool nest) {
    using O = opt::option<T>;
    compare<O, T>("option");
    MC_CHECK(members_noexcept<O>(), "queries and access are noexcept");
    if (nest) {
        compare<opt::option<O>, O, permits<T>::settled>("option of option");
        compare<opt::option<const T>, const T, std::is_trivially_move_constructible_v<T> == std::is_trivially_copy_constructible_v<T> && permits<T>::settled>("option of const");
    }
}
#if PART < 7
template<int CODE> void one() {
    using D = sp::dec<CODE>; using X = sp::P<D::CC, D::MC, D::CA, D::MA, D::DT, D::TR>;
    mc::set_ctx(sp::name<D::CC, D::MC, D::CA, D::MA, D::DT, D::TR>());
    whole<X>(true);
    if constexpr (D::DT == 1 && D::TR == 0) { // inside composites
        compare<opt::option<std::tuple<X>>, std::tuple<X>>("option of tuple");
        compare<opt::option<std::pair<bool, X>>, std::pair<bool, X>>("option of pair");
        compare<opt::option<holder<X>>, holder<X>>("option of aggregate");
#ifdef WIDE
        compare<opt::option<std::array<X, 2>>, std::array<X, 2>>("option of array");
        compare<opt::option<std::optional<X>>, std::optional<X>, permits<X>::settled>("option of optional");
        compare<opt::option<holder<opt::option<X>>>, holder<opt::option<X>>, permits<X>::settled>("option of aggregate of option");
#endif
    }
    if (mc::stats.states % 1999 < 7) mc::sample_trace();
}
template<int BASE, int... I> void slice(std::integer_sequence<int, I...>) { (one<BASE + I>(), ...); }
void go() {
    constexpr int from = sp::COUNT * PART / 7, to = sp::COUNT * (PART + 1) / 7;
    slice<from>(std::make_integer_sequence<int, to - from>{});
}
#elif PART == 7
// ---- ordinary types ----
enum class e1 { a, SENTINEL }; enum class e2 : unsigned char { a, b }; enum e3 { e3_a };
struct empty_ {}; struct final_ final { int x; }; struct poly { virtual ~poly() = default; int x = 0; }; struct abstract_ { virtual void f() = 0; virtual ~abstract_() = default; };
struct padded { int x; unsigned char PADDING; };
struct bits_ { unsigned a : 3; unsigned b : 5; };
union un { int a; float b; };
struct throwing_dtor_free { ~throwing_dtor_free() noexcept {} };
struct conv_only { conv_only(const conv_only&) = default; template<class U> conv_only(const U&) = delete; };
struct greedy { greedy() {} greedy(const greedy&) noexcept {} template<class U> greedy(U&&) noexcept(false) {} greedy& operator=(const greedy&) noexcept { return *this; } };
struct no_addr { int x = 1; void operator&() const = delete; };
struct explicit_copy { explicit_copy() = default; explicit explicit_copy(const explicit_copy&) {} };
struct volatile_copy { volatile_copy() = default; volatile_copy(const volatile_copy&) = default; volatile_copy(const volatile volatile_copy&) {} };
struct nonconst_copy { nonconst_copy() = default; nonconst_copy(nonconst_copy&) {} nonconst_copy& operator=(nonconst_copy&) { return *this; } };
template<class T> void listed() { mc::set_ctx(__PRETTY_FUNCTION__); whole<T>(true); }
template<class... Ts> void list() { (listed<Ts>(), ...); }
template<class R> void reference() {
    using O = opt::option<R>; mc::set_ctx(__PRETTY_FUNCTION__); ++mc::stats.states; ++mc::stats.traces;
    MC_CHECK((std::is_nothrow_default_constructible_v<O> && std::is_trivially_destructible_v<O> && std::is_trivially_copy_constructible_v<O> && std::is_trivially_move_constructible_v<O>
        && std::is_trivially_copy_assignable_v<O> && std::is_trivially_move_assignable_v<O> && std::is_trivially_copyable_v<O> && std::is_nothrow_copy_constructible_v<O> && std::is_nothrow_copy_assignable_v<O> && std::is_nothrow_move_assignable_v<O>
        && !std::is_convertible_v<O, bool> && members_noexcept<O>()), "an option of a reference is trivially copyable");
}
template<class... Rs> void references() { (reference<Rs>(), ...); }
// What is advertised works: every special member that is claimed is used.
template<class O, class F> void use(const char* name, F build) {
    mc::set_ctx(name); using T = typename O::value_type;
    for (int s = 0; s < 2; ++s) for (int d = 0; d < 2; ++d) {
        ++mc::stats.states; mc::clear(); mc::push("source engaged", s); mc::push("target engaged", d);
        auto put = [&](O& o, int on) { if (on) build(o); };
        if constexpr (std::is_copy_constructible_v<O>) { O a; put(a, s); O b(static_cast<const O&>(a)); MC_CHECK(b.has_value() == bool(s) && a.has_value() == bool(s), "copy construction"); ++mc::stats.transitions; }
        if constexpr (std::is_move_constructible_v<O>) { O a; put(a, s); O b(std::move(a)); MC_CHECK(b.has_value() == bool(s) && a.has_value() == bool(s), "move construction"); O c; put(c, s); O t = c.take(); MC_CHECK(t.has_value() == bool(s) && !c.has_value(), "take"); ++mc::stats.transitions; }
        if constexpr (std::is_copy_assignable_v<O>) { O a, b; put(a, s); put(b, d); b = static_cast<const O&>(a); MC_CHECK(b.has_value() == bool(s) && a.has_value() == bool(s), "copy assignment"); ++mc::stats.transitions; }
        if constexpr (std::is_move_assignable_v<O>) { O a, b; put(a, s); put(b, d); b = std::move(a); MC_CHECK(b.has_value() == bool(s) && a.has_value() == bool(s), "move assignment"); ++mc::stats.transitions; }
        if constexpr (std::is_swappable_v<O>) { O a, b; put(a, s); put(b, d); using std::swap; swap(a, b); MC_CHECK(a.has_value() == bool(d) && b.has_value() == bool(s), "swap"); std::swap(a, b); MC_CHECK(a.has_value() == bool(s) && b.has_value() == bool(d), "std::swap"); opt::swap(a, b); a.swap(b); MC_CHECK(a.has_value() == bool(s) && b.has_value() == bool(d), "swap twice"); ++mc::stats.transitions; }
        if constexpr (std::is_constructible_v<O, const T&>) { O a; put(a, 1); O b(static_cast<const T&>(*a)); MC_CHECK(b.has_value(), "construction from a value"); }
        if constexpr (std::is_assignable_v<O&, const T&>) { O a, b; put(a, 1); put(b, d); b = static_cast<const T&>(*a); MC_CHECK(b.has_value(), "assignment from a value"); }
        if constexpr (std::is_constructible_v<O, T&&>) { O a; put(a, 1); O b(static_cast<T&&>(*a)); MC_CHECK(b.has_value(), "construction from an rvalue"); }
        if constexpr (std::is_assignable_v<O&, T&&>) { O a, b; put(a, 1); put(b, d); b = static_cast<T&&>(*a); MC_CHECK(b.has_value(), "assignment from an rvalue"); }
        O a; put(a, s); a.reset(); MC_CHECK(!a.has_value(), "reset"); a = opt::none; put(a, d); MC_CHECK(a.has_value() == bool(d), "refill");
        ++mc::stats.traces;
    }
}
#define USE(...) use<opt::option<__VA_ARGS__>>(#__VA_ARGS__, [](auto& o) { o.emplace(); })
void go() {
    list<bool, char, int, unsigned long, float, double, long double, int*, const int*, void*, void (*)(), int poly::*, int (poly::*)(), e1, e2, e3, std::nullptr_t, empty_, final_, poly, padded, bits_, un,
        conv_only, no_addr, explicit_copy, volatile_copy, nonconst_copy, std::string, std::string_view, std::vector<int>, std::vector<std::unique_ptr<int>>, std::unique_ptr<int>, std::shared_ptr<int>, std::weak_ptr<int>,
        std::map<int, int>, std::deque<int>, std::function<void()>, std::any, std::variant<int, std::string>, std::variant<std::monostate>, std::optional<int>, std::pair<int, bool>, std::pair<const int, bool>, std::tuple<>, std::tuple<int, std::string>,
        std::tuple<bool, std::unique_ptr<int>>, std::array<int, 0>, std::array<std::string, 2>, std::array<bool, 4>, std::atomic<int>, std::mutex, std::unique_lock<std::mutex>, std::thread, std::promise<int>, std::future<int>,
        std::reference_wrapper<int>, opt::option<opt::option<bool>>, opt::option<int&>, L0, L1, MO, IM, PO, EN, AG>();
    USE(bool); USE(int); USE(double); USE(int*); USE(e2); USE(EN); USE(empty_); USE(final_); USE(poly); USE(padded); USE(std::string); USE(std::string_view); USE(std::vector<int>); USE(std::unique_ptr<int>); USE(std::shared_ptr<int>);
    USE(std::map<int, int>); USE(std::function<void()>); USE(std::any); USE(std::variant<int, std::string>); USE(std::optional<int>); USE(std::pair<int, bool>); USE(std::pair<const int, bool>); USE(std::tuple<>); USE(std::tuple<bool, std::string>);
    USE(std::array<bool, 3>); USE(std::array<std::string, 2>); USE(std::mutex); USE(std::unique_lock<std::mutex>); USE(std::thread); USE(std::promise<int>); USE(const int); USE(const std::string); USE(const std::unique_ptr<int>); USE(const bool); USE(const std::pair<int, bool>);
    USE(nonconst_copy); USE(volatile_copy); USE(no_addr); USE(L0); USE(std::atomic<int>); USE(std::nullptr_t); USE(long double); USE(void (*)());
    use<opt::option<const bool>>("const bool by value", [](auto& o) { o.emplace(true); });
    use<opt::option<opt::option<bool>>>("option<bool>", [](auto& o) { o.emplace(); }); use<opt::option<opt::option<int>>>("option<int>", [](auto& o) { o.emplace(3); });
    use<opt::option<std::reference_wrapper<int>>>("reference_wrapper", [](auto& o) { o.emplace(pool[1]); });
    use<opt::option<L1>>("L1", [](auto& o) { o.emplace(4); }); use<opt::option<MO>>("MO", [](auto& o) { o.emplace(4); }); use<opt::option<IM>>("IM", [](auto& o) { o.emplace(4); }); use<opt::option<AG>>("AG", [](auto& o) { o.emplace(4, true); });
    // options of references are as trivial as pointers
    references<int&, const int&, int&&, const int&&, std::string&, std::string&&, IM&, const IM&, abstract_&, const abstract_&, std::mutex&, std::unique_ptr<int>&, opt::option<int>&>();
}
#else
// ---- swap: every combination of move constructor, move assignment and swap function of the payload ----
int swaps;
template<int MC, int MA, int SW> struct S;
#define MV_0(...) = delete;
#define MV_1(...) noexcept { __VA_ARGS__ }
#define MV_2(...) noexcept(false) { __VA_ARGS__ }
#define SW_0(X)
#define SW_1(X) friend void swap(X& a, X& b) noexcept { std::swap(a.v, b.v); ++swaps; }
#define SW_2(X) friend void swap(X& a, X& b) noexcept(false) { std::swap(a.v, b.v); ++swaps; }
#define S_TYPE(C, A, W) template<> struct S<C, A, W> { int v; explicit S(int x) : v(x) {} S(S&& o) MV_##C(v = o.v; o.v = -9;) S& operator=(S&& o) MV_##A(v = o.v; o.v = -9; return *this;) SW_##W(S) };
#define S_W(C, A) S_TYPE(C, A, 0) S_TYPE(C, A, 1) S_TYPE(C, A, 2)
#define S_A(C) S_W(C, 0) S_W(C, 1) S_W(C, 2)
S_A(0) S_A(1) S_A(2)
template<class O, class = void> struct has_opt_swap : std::false_type {};
template<class O> struct has_opt_swap<O, std::void_t<decltype(opt::swap(std::declval<O&>(), std::declval<O&>()))>> : std::true_type {};
template<int CODE> void one() {
    constexpr int MC = CODE / 9, MA = CODE / 3 % 3, SW = CODE % 3; using T = S<MC, MA, SW>; using O = opt::option<T>;
    char b[80]; std::snprintf(b, sizeof b, "move ctor %d, move assignment %d, swap %d", MC, MA, SW); mc::set_ctx(b); ++mc::stats.states;
    constexpr bool can = MC != 0 && std::is_swappable_v<T>, nothrow = can && MC == 1 && std::is_nothrow_swappable_v<T>;
    MC_CHECK(std::is_swappable_v<O> == can, "swappable exactly if the payload can be moved and swapped");
    MC_CHECK(std::is_nothrow_swappable_v<O> == nothrow, "swap is noexcept exactly if the payload's operations are");
    MC_CHECK(has_opt_swap<O>::value == can, "opt::swap exists exactly if the payload can be moved and swapped");
    if constexpr (can) {
        MC_CHECK(noexcept(std::declval<O&>().swap(std::declval<O&>())) == nothrow, "member swap is noexcept exactly if the payload's operations are");
        MC_CHECK(std::is_nothrow_swappable_v<opt::option<O>> == (nothrow && std::is_nothrow_move_constructible_v<O>), "swap of nested options is noexcept exactly if the payload's operations are");
        for (int x = 0; x < 2; ++x) for (int y = 0; y < 2; ++y) for (int how = 0; how < 4; ++how) {
            ++mc::stats.states; mc::clear(); mc::push("engaged", x * 2 + y); mc::push("how", how); swaps = 0;
            O a, c; if (x) a.emplace(1); if (y) c.emplace(2);
            if (how == 0) a.swap(c); else if (how == 1) { using std::swap; swap(a, c); } else if (how == 2) opt::swap(a, c); else { opt::option<O> p(std::in_place, std::move(a)), q(std::in_place, std::move(c)); using std::swap; swap(p, q); a.reset(); c.reset(); if (p->has_value()) a.emplace(std::move(**p)); if (q->has_value()) c.emplace(std::move(**q)); }
            ++mc::stats.transitions;
            MC_CHECK(a.has_value() == bool(y) && c.has_value() == bool(x) && (!y || a->v == 2) && (!x || c->v == 1), "swap exchanges state and value");
            MC_CHECK(swaps == (x && y && SW != 0), "the payload's own swap is used exactly if both hold values");
            ++mc::stats.traces;
        }
    }
    mc::sample_trace();
}
template<int... I> void all(std::integer_sequence<int, I...>) { (one<I>(), ...); }
// swap between options of different types
struct A { int v; explicit A(int x) : v(x) {} explicit A(struct B&& o); }; struct B { int v; explicit B(int x) : v(x) {} explicit B(A&& o) : v(o.v) {} };
A::A(B&& o) : v(o.v) {}
void swap(A& a, B& b) noexcept { std::swap(a.v, b.v); ++swaps; } void swap(B& b, A& a) noexcept { std::swap(a.v, b.v); ++swaps; }
void go() {
    all(std::make_integer_sequence<int, 27>{});
    mc::set_ctx("swap of option<A> and option<B>");
    using OA = opt::option<A>; using OB = opt::option<B>;
    MC_CHECK((std::is_swappable_with_v<OA&, OB&>), "options of mutually swappable types are swappable");
    for (int x = 0; x < 2; ++x) for (int y = 0; y < 2; ++y) for (int how = 0; how < 3; ++how) {
        ++mc::stats.states; ++mc::stats.traces; ++mc::stats.transitions; mc::clear(); mc::push("engaged", x * 2 + y); mc::push("how", how); swaps = 0;
        OA a; OB c; if (x) a.emplace(1); if (y) c.emplace(2);
        if (how == 0) a.swap(c); else if (how == 1) swap(a, c); else swap(c, a);
        MC_CHECK(a.has_value() == bool(y) && c.has_value() == bool(x) && (!y || a->v == 2) && (!x || c->v == 1), "swap exchanges state and value");
        MC_CHECK(swaps == (x && y), "the swap of both types is used exactly if both hold values");
    }
    MC_CHECK(!(std::is_swappable_with_v<opt::option<int>&, opt::option<std::string>&>), "options of types that cannot be swapped are not swappable");
    MC_CHECK(!(std::is_swappable_with_v<opt::option<int>&, opt::option<long>&>), "options of types that cannot be swapped are not swappable");
    MC_CHECK(!(std::is_swappable_v<const opt::option<int>>), "a const option is not swappable");
    MC_CHECK(!(std::is_swappable_v<opt::option<const int>>), "an option of const is not swappable");
}
#endif
}
int main() { mc::init(); go(); return mc::finish(); }
