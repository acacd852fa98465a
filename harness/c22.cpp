// C22: reports through OPTION_VERIFY. Every way to reach or store a value x every state x payload kinds x nesting depths; a report
// is intercepted before anything else happens (a jump out of the library), a default report runs in a child process.
#define MC_DEFAULT_VERIFY 1
#include "mc.hpp"
#include <csetjmp>
namespace rep {
inline bool armed = false; inline sigjmp_buf at; inline int hits = 0;
inline void report(const char* e, const char* m) {
    ++hits;
    if (armed) siglongjmp(at, 1);
    mc::fail(std::string("precondition reported on valid use: ") + e, m);
}
// runs f; true when a report stopped it
template<class F> bool reports(F&& f) {
    volatile bool r = false; armed = true;
    if (sigsetjmp(at, 0) == 0) f(); else r = true;
    armed = false; return r;
}
}
#if PART < 4
    #define OPTION_VERIFY(expression, message) ((expression) ? (void)0 : ::rep::report(#expression, message))
#endif
#include <opt/option.hpp>
#include <array>
#include <complex>
#include <functional>
#include <memory>
#include <new>
#include <string>
#include <string_view>
#include <tuple>
#include <utility>
#include <vector>
#include <sys/wait.h>

namespace {
volatile const void* sink_; 
template<class T> void use(T&& x) { sink_ = std::addressof(x); }
template<class T> void use_p(T* p) { sink_ = const_cast<const volatile void*>(static_cast<const volatile void*>(p)); }
void did(int n = 1) { mc::stats.transitions += unsigned(n); ++mc::stats.states; ++mc::stats.traces; }
template<class T, int D> struct nest { using type = opt::option<typename nest<T, D - 1>::type>; };
template<class T> struct nest<T, 0> { using type = T; };
template<class T, int D> using nest_t = typename nest<T, D>::type;
enum class se : signed char { a, b, SENTINEL = -7 };
enum class sr : unsigned char { a, b, SENTINEL_START = 200, SENTINEL_END = 210 };
struct base { virtual ~base() = default; int v = 1; };
struct guide { int x; int y; };
struct plain { int x; std::string s; };
struct nodef { explicit nodef(int v_) : v(v_) {} int v; };
struct mo { mo(int v_) : v(v_) {} mo(mo&&) = default; mo& operator=(mo&&) = default; int v; };
struct padded { short x; std::uint8_t PADDING = 0; unsigned char y; };
}
namespace { struct owner { int x; std::string s; }; struct keeper { int x; std::string s; keeper(int x_, const char* s_) : x(x_), s(s_) {} }; }
template<class T> struct id_traits {
    static constexpr std::uintmax_t max_level = 3;
    static std::uintmax_t get_level(const T* v) noexcept { return v->x < 0 ? std::uintmax_t(-1 - v->x) : std::uintmax_t(-1); }
    static void set_level(T* v, std::uintmax_t l) noexcept { v->x = -1 - int(l); }
};
template<> struct opt::option_traits<owner> : id_traits<owner> {};
template<> struct opt::option_traits<keeper> : id_traits<keeper> {};
template<> struct opt::option_traits<guide> {
    static constexpr std::uintmax_t max_level = 100;
    static std::uintmax_t get_level(const guide* v) noexcept { return v->x == -1 ? std::uintmax_t(v->y) : std::uintmax_t(-1); }
    static void set_level(guide* v, std::uintmax_t l) noexcept { v->x = -1; v->y = int(l); }
};
namespace {
// ---- every accessor
template<class O, class F> void each_access(O& o, F&& f) { // f(name, callable)
    f("get() &", [&] { use(o.get()); }); f("get() const&", [&] { use(std::as_const(o).get()); });
    f("get() &&", [&] { auto&& r = std::move(o).get(); use(r); }); f("get() const&&", [&] { auto&& r = std::move(std::as_const(o)).get(); use(r); });
    f("* &", [&] { use(*o); }); f("* const&", [&] { use(*std::as_const(o)); });
    f("* &&", [&] { auto&& r = *std::move(o); use(r); }); f("* const&&", [&] { auto&& r = *std::move(std::as_const(o)); use(r); });
    f("->", [&] { use_p(o.operator->()); }); f("-> const", [&] { use_p(std::as_const(o).operator->()); });
}
template<class T> void accessors(const char* name, opt::option<T> full) {
    using O = opt::option<T>;
    mc::set_ctx(name);
    int k = 0;
    // empty in every way an option becomes empty
    for (int way = 0; way < 6; ++way) {
        alignas(O) unsigned char mem[sizeof(O)]; std::memset(mem, way % 2 ? 0xFF : 0, sizeof mem);
        O* p;
        switch (way) {
        case 0: p = new (mem) O; break;
        case 1: p = new (mem) O(opt::none); break;
        case 2: p = new (mem) O(std::move(full)); full.reset(); p->reset(); break;
        case 3: p = new (mem) O; *p = opt::none; break;
        case 4: { O e; p = new (mem) O(std::move(e)); break; }
        default: p = new (mem) O; if constexpr (std::is_move_assignable_v<O>) { O e; *p = std::move(e); } break;
        }
        each_access(*p, [&](const char* n, auto f) {
            mc::clear(); mc::push("empty, way", way); mc::push(n); did(); ++k;
            MC_CHECK(rep::reports(f), "access to an empty option is not reported");
            MC_CHECK(!p->has_value(), "a reported access changes the option");
        });
        p->~O();
    }
    mc::sample(std::string(name) + ": " + std::to_string(k) + " accesses to empty options, each reported");
}
template<class T> void silent(const char* name, opt::option<T> full) {
    mc::set_ctx(name);
    each_access(full, [&](const char* n, auto f) {
        mc::clear(); mc::push("engaged"); mc::push(n); did();
        MC_CHECK(!rep::reports(f), "access to an engaged option is reported");
    });
    mc::clear(); mc::push("engaged"); mc::push("get_unchecked"); did(4);
    MC_CHECK(!rep::reports([&] { use(full.get_unchecked()); use(std::as_const(full).get_unchecked()); auto&& r = std::move(full).get_unchecked(); use(r); auto&& c = std::move(std::as_const(full)).get_unchecked(); use(c); }), "access to an engaged option is reported");
    for (bool e : {true, false}) { // everything that is defined for both states
        mc::clear(); mc::push(e ? "engaged" : "empty");
        if (!e) full.reset();
        MC_CHECK(!rep::reports([&] {
            use_p(full.ptr_or_null()); use_p(std::as_const(full).ptr_or_null()); (void)full.has_value(); (void)bool(full); (void)full.has_value_and([](auto&&) { return true; });
            full.inspect([](auto&&) {}); (void)full.map_or(1, [](auto&&) { return 2; }); (void)full.map([](auto&&) { return 2; }); (void)full.and_then([](auto&&) { return opt::option<int>{}; }); int c = 0; for (auto&& x : full) { use(x); ++c; } MC_CHECK(c == int(e), "iteration");
            try { use(full.value()); } catch (const opt::bad_access&) {} try { use(std::as_const(full).value_or_throw()); } catch (const opt::bad_access&) {}
        }), "an operation defined for every state is reported"); did(12);
        if constexpr (std::is_move_assignable_v<opt::option<T>>) { mc::push("take"); MC_CHECK(!rep::reports([&] { opt::option<T> t(std::move(full)); full = std::move(t); opt::option<T> u = full.take(); MC_CHECK(u.has_value() == e && !full.has_value(), "take"); full = std::move(u); opt::option<T> w; w.swap(full); full.swap(w); }), "moving, taking and swapping is reported"); did(6); }
    }
}
template<class T> void both(const char* name, opt::option<T> (*make)()) { accessors<T>(name, make()); silent<T>(name, make()); }
template<class T, class... A> void payload(const char* name, A... a) {
    static std::tuple<A...>* args; args = new std::tuple<A...>(a...);
    both<T>(name, [] { return std::apply([](const A&... x) { return opt::option<T>(std::in_place, x...); }, *args); });
}

// ---- storing values
template<class T> struct lazy { T v; operator T() const { return v; } };
template<class T> struct reserved { // values of T per level; level -1: an ordinary value
    static T at(std::uintmax_t l) { T v{}; opt::option_traits<T>::set_level(&v, l); return v; }
};
template<class O> int depth(const O& o) { if constexpr (opt::is_option_v<O>) return o.has_value() ? 1 + depth(*o) : 0; else return 0; }
template<class O, class T, class F> void each_store(const T& v, const T& ord, F&& f) { // f(name, callable(O*) -> stored into *p built by it)
    using U = lazy<T>; using P = typename O::value_type; (void)ord;
    f("O(const T&)", [&](void* p) { return new (p) O(v); }); f("O(T&&)", [&](void* p) { T w = v; return new (p) O(std::move(w)); });
    f("O(in_place, v)", [&](void* p) { return new (p) O(std::in_place, v); });
    f("emplace on empty", [&](void* p) { O* o = new (p) O; o->emplace(v); return o; }); f("emplace on engaged", [&](void* p) { O* o = new (p) O(ord); o->emplace(v); return o; });
    f("try_emplace on empty", [&](void* p) { O* o = new (p) O; o->try_emplace(v); return o; });
    f("= const T& on empty", [&](void* p) { O* o = new (p) O; *o = v; return o; }); f("= const T& on engaged", [&](void* p) { O* o = new (p) O(ord); *o = v; return o; });
    f("= T&& on empty", [&](void* p) { O* o = new (p) O; *o = T(v); return o; }); f("= T&& on engaged", [&](void* p) { O* o = new (p) O(ord); *o = T(v); return o; });
    f("|= T on empty", [&](void* p) { O* o = new (p) O; *o |= v; return o; });
    if constexpr (std::is_same_v<P, T>) {
        const opt::option<U> cu(std::in_place, U{v}); opt::option<U> mu(std::in_place, U{v}); const U u{v};
        f("O(U)", [&](void* p) { return new (p) O(u); }); f("= U on empty", [&](void* p) { O* o = new (p) O; *o = u; return o; }); f("= U on engaged", [&](void* p) { O* o = new (p) O(ord); *o = u; return o; });
        f("O(const option<U>&)", [&](void* p) { return new (p) O(cu); }); f("O(option<U>&&)", [&](void* p) { return new (p) O(std::move(mu)); });
        f("= const option<U>& on empty", [&](void* p) { O* o = new (p) O; *o = cu; return o; }); f("= const option<U>& on engaged", [&](void* p) { O* o = new (p) O(ord); *o = cu; return o; });
        f("= option<U>&& on empty", [&](void* p) { O* o = new (p) O; *o = std::move(mu); return o; }); f("= option<U>&& on engaged", [&](void* p) { O* o = new (p) O(ord); *o = std::move(mu); return o; });
        f("map", [&](void* p) { opt::option<int> one(1); return new (p) O(one.map([&](int) { return v; })); });
        f("option_cast", [&](void* p) { return new (p) O(opt::option_cast<T>(cu)); });
    }
}
template<class T, int D> void stores(const char* name, T ord) {
    using O = nest_t<T, D>;
    mc::set_ctx(name);
    const std::uintmax_t ml = opt::option_traits<T>::max_level; int n = 0;
    for (std::uintmax_t l = 0; l <= ml && l < 6; ++l) {
        const bool plain_value = l == ml || l == 5; const T v = [&] { if constexpr (opt::option_traits<T>::max_level > 0) { if (!plain_value) return reserved<T>::at(l); } return ord; }();
        // the layers around T use levels 0..min(D, ml)-1: every other value is an ordinary one
        const bool want = !plain_value && l < std::uintmax_t(D);
        each_store<O>(v, ord, [&](const char* op, auto f) {
            mc::clear(); mc::push("options", D); mc::push("level of the value", plain_value ? -1 : (long long)l); mc::push(op); did(); ++n;
            alignas(O) unsigned char mem[sizeof(O)] = {};
            O* volatile made = nullptr;
            const bool r = rep::reports([&] { made = f(mem); });
            MC_CHECK(r == want, want ? "storing the empty pattern is not reported" : "storing an ordinary value is reported");
            if (!r && made) { if (!want) MC_CHECK(depth(*made) == D, "the stored value is not there"); made->~O(); }
        });
    }
    mc::sample(std::string(name) + ", " + std::to_string(D) + " options: " + std::to_string(n) + " stores of level values and ordinary values");
}
template<class T> void stores_all(const char* name, T ord) { stores<T, 1>(name, ord); if constexpr (opt::option_traits<T>::max_level > 1) stores<T, 2>(name, ord); if constexpr (opt::option_traits<T>::max_level > 2) stores<T, 3>(name, ord); }

// values built from their arguments inside the option: by parentheses or braces, trivially destructible or not
template<class T, class... A> void built(const char* name, bool reserved_pattern, A... a) {
    using O = opt::option<T>; mc::set_ctx(name);
    auto one = [&](const char* op, auto f) {
        mc::clear(); mc::push(reserved_pattern ? "the empty pattern" : "an ordinary value"); mc::push(op); did();
        alignas(O) unsigned char mem[sizeof(O)] = {}; O* volatile made = nullptr;
        const bool r = rep::reports([&] { made = f(mem); });
        MC_CHECK(r == reserved_pattern, reserved_pattern ? "building the empty pattern is not reported" : "building an ordinary value is reported");
        if (!r && made) { MC_CHECK(made->has_value(), "the built value is not there"); made->~O(); }
    };
    one("O(in_place, args...)", [&](void* p) { return new (p) O(std::in_place, a...); });
    one("emplace(args...)", [&](void* p) { O* o = new (p) O; o->emplace(a...); return o; });
    one("try_emplace(args...)", [&](void* p) { O* o = new (p) O; o->try_emplace(a...); return o; });
    if constexpr (sizeof...(A) > 0) one("make_option<T>(args...)", [&](void* p) { return new (p) O(opt::make_option<T>(a...)); });
    one("map, built by the function", [&](void* p) { opt::option<int> i(1); return new (p) O(i.map([&](int) { if constexpr (std::is_aggregate_v<T>) return T{a...}; else return T(a...); })); });
}
// ---- iterators
template<class O> void iterators(const char* name, O full) {
    mc::set_ctx(name);
    auto one = [&](const char* kind, auto null, auto good) {
        using I = decltype(null);
        auto misuse = [&](const char* op, auto f) {
            mc::clear(); mc::push(kind); mc::push(op); did();
            MC_CHECK(rep::reports([&] { I i = null; f(i); }), "use of a value-initialised iterator is not reported");
            MC_CHECK(!rep::reports([&] { I i = good; f(i); }), "use of a valid iterator is reported");
        };
        misuse("*it", [](I& i) { use(*i); }); misuse("it->", [](I& i) { use_p(i.operator->()); }); misuse("it[0]", [](I& i) { use(i[0]); });
        misuse("++it", [](I& i) { use(++i); }); misuse("it++", [](I& i) { I j = i++; use(j); });
        misuse("it += 1", [](I& i) { use(i += 1); }); misuse("it + 1", [](I& i) { I j = i + 1; use(j); }); misuse("1 + it", [](I& i) { I j = 1 + i; use(j); });
        misuse("it -= 1", [](I& i) { if (i == I{}) use(i -= 1); else use(i); }); misuse("it - 1", [](I& i) { if (i == I{}) { I j = i - 1; use(j); } });
        misuse("it < good", [&](I& i) { volatile bool b = i < good; (void)b; }); misuse("it > good", [&](I& i) { volatile bool b = i > good; (void)b; });
        misuse("good < it", [&](I& i) { volatile bool b = good < i; (void)b; }); misuse("good > it", [&](I& i) { volatile bool b = good > i; (void)b; });
        auto misuse_end = [&](const char* op, auto f) {
            mc::clear(); mc::push(kind); mc::push(op); did();
            MC_CHECK(rep::reports([&] { I i = null; f(i); }), "use of a value-initialised iterator is not reported");
            MC_CHECK(!rep::reports([&] { I i = good; ++i; f(i); }), "use of a valid iterator is reported");
        };
        misuse_end("--it", [](I& i) { use(--i); }); misuse_end("it--", [](I& i) { I j = i--; use(j); }); misuse_end("it -= 1", [](I& i) { use(i -= 1); }); misuse_end("it - 1", [](I& i) { I j = i - 1; use(j); });
        mc::clear(); mc::push(kind); mc::push("copy, compare for equality");
        MC_CHECK(!rep::reports([&] { I i = null; I j; j = i; volatile bool b = (i == j) && !(i != j) && i != good; (void)b; }), "copying or comparing value-initialised iterators is reported"); did(4);
        mc::clear(); mc::push(kind); mc::push("valid operations on the empty range");
        // [begin, end) of an empty option is an ordinary empty range of random access iterators
        O none; const O& cnone = none;
        for (int k = 0; k < 2; ++k) {
            MC_CHECK(!rep::reports([&] { I b, e; if constexpr (std::is_same_v<I, typename O::iterator>) { b = none.begin(); e = none.end(); } else { b = k ? cnone.begin() : I(none.begin()); e = k ? I(none.end()) : cnone.end(); }
                volatile bool c = b == e && !(b != e) && !(b < e) && !(b > e) && b <= e && b >= e && e - b == 0 && b + (e - b) == e && (e - b) + b == e && e - (e - b) == b; 
                I i = b; i += 0; i -= 0; if (!c || i != e) mc::fail("operations on the empty range give wrong results", ""); }), "valid use of the iterators of an empty option is reported"); did(14);
        }
    };
    using I = typename O::iterator; using C = typename O::const_iterator;
    one("iterator", I{}, full.begin()); one("const_iterator", C{}, std::as_const(full).begin());
    mc::sample(std::string(name) + ": iterator and const_iterator, 20 operations, value-initialised and valid");
}

#if PART >= 4
// ---- the default OPTION_VERIFY in a debug build
int child(void (*f)()) { // 0: returned normally; otherwise the signal, or -1; err: did it print
    int fd[2]; if (pipe(fd)) return -2;
    const pid_t p = fork();
    if (p == 0) { alarm(20); dup2(fd[1], 2); for (int s : {SIGILL, SIGTRAP, SIGABRT, SIGSEGV}) std::signal(s, SIG_DFL); f(); _exit(0); }
    close(fd[1]); std::string err; char b[512]; for (ssize_t n; (n = read(fd[0], b, sizeof b)) > 0;) err.append(b, std::size_t(n)); close(fd[0]);
    int st = 0; waitpid(p, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return err.empty() ? 0 : -3;
    return WIFSIGNALED(st) ? (err.find("assertion") != std::string::npos ? WTERMSIG(st) : -4) : -1;
}
template<class T> void stops(const char* name, opt::option<T> (*make_)()) {
    mc::set_ctx("default OPTION_VERIFY", name);
    auto one = [&](const char* op, void (*f)(), bool good) {
        mc::clear(); mc::push(op); did();
        const int r = child(f);
        if (good) MC_CHECK(r == 0, "correct use is reported or stops the program"); else MC_CHECK(r > 0, "misuse does not print a message and stop the program");
    };
    static opt::option<T> (*make)(); make = make_;
    one("get", [] { opt::option<T> o; use(o.get()); }, false); one("get", [] { auto o = make(); use(o.get()); }, true);
    one("get &&", [] { opt::option<T> o; auto&& r = std::move(o).get(); use(r); }, false); one("get &&", [] { auto o = make(); auto&& r = std::move(o).get(); use(r); }, true);
    one("* const", [] { const opt::option<T> o; use(*o); }, false); one("* const", [] { const auto o = make(); use(*o); }, true);
    one("->", [] { opt::option<T> o; use_p(o.operator->()); }, false); one("->", [] { auto o = make(); use_p(o.operator->()); }, true);
    one("*", [] { opt::option<T> o = make(); o.reset(); use(*o); }, false); one("*", [] { opt::option<T> o = make(); o.reset(); o = make(); use(*o); }, true);
    one("*it", [] { typename opt::option<T>::iterator i{}; use(*i); }, false); one("*it", [] { auto o = make(); use(*o.begin()); }, true);
}
template<class T> void store_stops(const char* name, T ord_) {
    static T ord, bad; ord = ord_; bad = reserved<T>::at(0); mc::set_ctx("default OPTION_VERIFY", name);
    auto one = [&](const char* op, void (*f)(), bool good) { mc::clear(); mc::push(op); did(); const int r = child(f); if (good) MC_CHECK(r == 0, "correct use is reported or stops the program"); else MC_CHECK(r > 0, "misuse does not print a message and stop the program"); };
    one("O(v)", [] { opt::option<T> o(bad); use(o); }, false); one("O(v)", [] { opt::option<T> o(ord); use(o); }, true);
    one("emplace", [] { opt::option<T> o; o.emplace(bad); use(o); }, false); one("emplace", [] { opt::option<T> o; o.emplace(ord); use(o); }, true);
    one("=", [] { opt::option<T> o(ord); o = bad; use(o); }, false); one("=", [] { opt::option<T> o(ord); o = ord; use(o); }, true);
}
#endif
template<auto... V> using si = opt::sentinel<int, V...>;
int obj;
}
int main() {
    mc::init();
#if PART == 0
    payload<int>("int", 3); payload<char>("char", 'c'); payload<bool>("bool", true); payload<float>("float", 2.5f); payload<double>("double", -1.0); payload<int*>("int*", &obj); payload<se>("enum with SENTINEL", se::b); payload<sr>("enum with a range", sr::a);
    payload<std::string>("string", "abc"); payload<std::string_view>("string_view", "abc"); payload<plain>("class with a string", 3, std::string("x")); payload<nodef>("explicit class", 4); payload<std::vector<int>>("vector", std::size_t(3), 1);
    payload<std::pair<int, bool>>("pair<int,bool>", 3, true); payload<std::pair<int, int>>("pair<int,int>", 3, 4); payload<std::tuple<int, float>>("tuple<int,float>", 3, 4.f); payload<std::array<int, 2>>("array", 1, 2); payload<base>("polymorphic"); payload<guide>("user traits", 1, 2); payload<padded>("PADDING");
    payload<const int>("const int", 3); payload<const float>("const float", 3.f); payload<const std::string>("const string", "abc"); payload<opt::option<int>>("option<int>", 3); payload<opt::option<bool>>("option<bool>", true); payload<opt::option<opt::option<float>>>("option<option<float>>", opt::option<float>(3.f)); payload<opt::sentinel<int, -1>>("sentinel", 4); payload<std::complex<double>>("complex", 1., 2.);
    payload<std::reference_wrapper<int>>("reference_wrapper", std::ref(obj)); payload<std::shared_ptr<int>>("shared_ptr", std::make_shared<int>(3)); payload<opt::option<std::string>>("option<string>", std::string("x")); payload<void (*)()>("function pointer", +[] {}); payload<std::nullptr_t>("nullptr_t", nullptr); payload<std::byte>("byte", std::byte{3}); payload<int (guide::*)>("member pointer", &guide::y);
#elif PART == 1
    both<int&>("int&", [] { return opt::option<int&>(obj); }); both<const int&>("const int&", [] { return opt::option<const int&>(obj); });
    static std::string s; accessors<std::string&>("string&", opt::option<std::string&>(s)); both<base&>("base&", [] { static base b; return opt::option<base&>(b); });
    accessors<mo>("move only", opt::option<mo>(3)); accessors<std::unique_ptr<int>>("unique_ptr", opt::option<std::unique_ptr<int>>(std::in_place)); silent<mo>("move only", opt::option<mo>(3)); silent<std::unique_ptr<int>>("unique_ptr", opt::option<std::unique_ptr<int>>(std::in_place, new int(3)));
    iterators("option<int>", opt::option<int>(3)); iterators("option<string>", opt::option<std::string>("x")); iterators("option<float>", opt::option<float>(1.f)); iterators("option<pair>", opt::option<std::pair<int, bool>>(std::in_place, 1, true)); iterators("option<option<int>>", opt::option<opt::option<int>>(std::in_place, 3)); iterators("option<base>", opt::option<base>(std::in_place));
#elif PART == 2
    stores_all<float>("float", 1.5f); stores_all<double>("double", 0.0); stores_all<int*>("int*", &obj); stores_all<const char*>("const char*", "x"); stores_all<void (*)()>("function pointer", +[] {});
    stores_all<se>("enum with SENTINEL", se::a); stores_all<sr>("enum with a range", sr::b); stores_all<si<-1>>("sentinel<int,-1>", si<-1>(3)); stores_all<si<-1, 5, 7>>("sentinel<int,-1,5,7>", si<-1, 5, 7>(6));
    stores_all<guide>("user traits", guide{0, 0}); stores_all<std::string_view>("string_view", "abc"); stores_all<opt::enforce<float>>("enforce<float>", opt::enforce<float>(2.f));
#elif PART == 3
    stores_all<std::pair<int, float>>("pair<int,float>", {1, 2.f}); stores_all<std::pair<double, char>>("pair<double,char>", {1., 'c'}); stores_all<std::tuple<int, int*, char>>("tuple<int,int*,char>", {1, &obj, 'c'}); stores_all<std::array<float, 2>>("array<float,2>", {1.f, 2.f}); stores_all<std::complex<float>>("complex<float>", {1.f, 2.f});
    stores_all<std::pair<int, guide>>("pair<int,user traits>", {1, guide{1, 2}}); stores_all<std::pair<plain, float>>("pair<class,float>", {plain{1, "abc"}, 1.f}); stores_all<std::pair<plain, guide>>("pair<class,user traits>", {plain{2, "abc"}, guide{3, 4}});
    built<guide>("aggregate with user traits", true, -1, 0); built<guide>("aggregate with user traits", false, -2, 0); built<owner>("aggregate with a string and user traits", true, -1, std::string("x")); built<owner>("aggregate with a string and user traits", false, 2, std::string("x"));
    built<keeper>("class with a string and user traits", true, -1, "x"); built<keeper>("class with a string and user traits", false, 2, "x"); built<std::pair<int, int*>>("pair", false, 1, nullptr); built<std::pair<int, guide>>("pair with user traits", true, 1, guide{-1, 0}); built<std::pair<int, guide>>("pair with user traits", false, 1, guide{1, 0});
    built<std::array<guide, 2>>("array of user traits", true, guide{-1, 0}, guide{1, 1}); built<std::array<guide, 2>>("array of user traits", false, guide{1, 0}, guide{1, 1}); built<std::tuple<owner, int>>("tuple with a string", true, owner{-1, "x"}, 1); built<std::tuple<owner, int>>("tuple with a string", false, owner{3, "x"}, 1); built<se>("enum", true, se::SENTINEL); built<se>("enum", false, se::a);
    stores_all<long double>("long double (no levels)", 1.L); stores_all<int>("int (no levels)", 3);
#elif PART == 4
    stops<int>("int", [] { return opt::option<int>(3); }); stops<std::string>("string", [] { return opt::option<std::string>("x"); }); stops<float>("float", [] { return opt::option<float>(1.f); }); stops<base>("polymorphic", [] { return opt::option<base>(std::in_place); }); stops<opt::option<bool>>("option<bool>", [] { return opt::option<opt::option<bool>>(std::in_place, true); });
    store_stops<float>("float", 1.f); store_stops<int*>("int*", &obj); store_stops<se>("enum with SENTINEL", se::a); store_stops<si<4>>("sentinel", si<4>(5)); store_stops<guide>("user traits", guide{1, 1});
    mc::sample("default OPTION_VERIFY: each misuse in a child process prints and stops; each correct use returns");
#endif
    return mc::finish();
}
