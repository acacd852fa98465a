// C14: options of references: every operation sequence up to a depth against a model that is just "which object".
#include "fn.hpp"
using namespace fn;
using opt::none;
namespace {
int touched = 0;                 // any copy, move or assignment of a referent
struct counted {
    int v;
    explicit counted(int x = 0) : v(x) {}
    counted(const counted& o) : v(o.v) { ++touched; }
    counted(counted&& o) : v(o.v) { o.v = -1; ++touched; }
    counted& operator=(const counted& o) { v = o.v; ++touched; return *this; }
    counted& operator=(counted&& o) { v = o.v; o.v = -1; ++touched; return *this; }
    bool operator==(const counted& o) const { return v == o.v; }
};
struct left { long pad = 5; };
struct derived : left, counted { explicit derived(int x = 0) : counted(x) {} };
struct abstract { virtual int id() const = 0; virtual ~abstract() = default; };
struct concrete : left, abstract { int i; explicit concrete(int x = 0) : i(x) {} int id() const override { return i; } };
struct addr { int v; explicit addr(int x = 0) : v(x) {} addr* operator&() { return nullptr; } const addr* operator&() const { return nullptr; } };
struct assigns_any { int v; explicit assigns_any(int x = 0) : v(x) {} template<class U> assigns_any& operator=(U&&) { ++touched; return *this; } assigns_any(const assigns_any&) = default; assigns_any& operator=(const assigns_any&) { ++touched; return *this; } };

template<class X> struct pool3 { X x[3]; pool3() : x{X(1), X(2), X(3)} {} };
template<class A> struct pool3<A*> { int y[3]; A* x[3]; pool3() : y{}, x{&y[0], &y[1], nullptr} {} };
template<class E, std::size_t N> struct pool3<E[N]> { E x[3][N] = {}; };

// R: the reference type of the options a and b; S: the reference type of the option c; X: the type of the objects
template<class R, class S, class X, bool CONV> struct run {
    using O = opt::option<R>; using C = opt::option<S>;
    using T = std::remove_reference_t<R>;
    static constexpr bool RV = std::is_rvalue_reference_v<R>;
    pool3<X> p; unsigned char image[sizeof(p.x)];
    struct state { O a, b; C c; int ma = -1, mb = -1, mc = -1; };
    T* at(int i) { return i < 0 ? nullptr : static_cast<T*>(std::addressof(p.x[i])); }
    std::remove_reference_t<S>* cat_(int i) { return i < 0 ? nullptr : static_cast<std::remove_reference_t<S>*>(std::addressof(p.x[i])); }
    decltype(auto) obj(int i) { if constexpr (RV) return static_cast<X&&>(p.x[i]); else return static_cast<X&>(p.x[i]); }
    template<class Q, class P> void same_as(Q& o, P* want, const char* what) {
        using W = typename std::remove_cv_t<Q>::value_type; using B = std::remove_reference_t<W>;
        const auto& co = o; auto ptr = [](auto&& r) { return std::addressof(r); };
        bool ok = o.has_value() == (want != nullptr) && bool(o) == (want != nullptr) && (o == none) == (want == nullptr) && (none != co) == (want != nullptr)
            && o.ptr_or_null() == want && co.ptr_or_null() == want && (co.begin() == co.end()) == (want == nullptr) && (o.begin() == o.end()) == (want == nullptr);
        MC_CHECK(ok, what);
        if (ok && want) {
            static_assert(same<decltype(co.get()), B&> && same<decltype(*co), B&> && same<decltype(o.get()), B&> && same<decltype(std::move(o).get()), W&&>
                && same<decltype(*std::move(co)), W&&> && same<decltype(co.value()), B&> && same<decltype(std::move(o).value()), W&&> && same<decltype(co.operator->()), B*> && same<decltype(co.ptr_or_null()), B*>
                && same<decltype(std::move(co).value_or_throw()), W&&> && same<decltype(co.get_unchecked()), B&>);
            ok = ptr(o.get()) == want && ptr(*o) == want && ptr(*co) == want && ptr(co.get()) == want && o.operator->() == want && co.operator->() == want && ptr(o.get_unchecked()) == want
                && ptr(co.get_unchecked()) == want && ptr(o.value()) == want && ptr(co.value()) == want && ptr(o.value_or_throw()) == want && ptr(co.value_or_throw()) == want;
            auto cat2 = [&](auto&& r) { return std::addressof(const_cast<B&>(static_cast<const B&>(r))) == const_cast<B*>(want); };
            ok = ok && cat2(*std::move(o)) && cat2(std::move(o).get()) && cat2(std::move(o).value()) && cat2(std::move(co).get()) && cat2(std::move(o).value_or_throw()) && cat2(std::move(o).get_unchecked()) && cat2(std::move(co).value());
            MC_CHECK(ok, "an accessor designates another object");
            if constexpr (!std::is_abstract_v<B>) { int n = 0; for (auto& e : o) { ++n; MC_CHECK(std::addressof(e) == want, "iteration visits another object"); } for (auto& e : co) { ++n; MC_CHECK(std::addressof(e) == want, "iteration visits another object"); } MC_CHECK(n == 2, "iteration visits exactly one object"); }
        }
    }
    void compare(state& s) {
        same_as(s.a, at(s.ma), "a"); same_as(s.b, at(s.mb), "b"); same_as(s.c, cat_(s.mc), "c");
        MC_CHECK(touched == 0, "a referent was copied, moved or assigned");
        MC_CHECK(std::memcmp(static_cast<const void*>(p.x), image, sizeof image) == 0, "a referent was modified");
    }
    static constexpr int BASE = 32, N = BASE + (CONV ? 6 : 0);
    // returns false if the operation does not exist for this kind of reference
    bool apply(state& s, int k) {
        const auto kind = [](auto f) { f(); return true; };
        switch (k) {
        case 0: case 1: case 2: OP(a = object); { O& r = (s.a = obj(k)); MC_CHECK(std::addressof(r) == std::addressof(s.a), "assignment returns the option"); } s.ma = k; return true;
        case 3: case 4: OP(a.emplace); { auto& r = s.a.emplace(obj(k - 2)); s.ma = k - 2; MC_CHECK(std::addressof(r) == at(s.ma), "emplace returns the object"); } return true;
        case 5: case 6: OP(a.try_emplace); { auto& r = s.a.try_emplace(obj(k - 5)); if (s.ma < 0) s.ma = k - 5; MC_CHECK(std::addressof(r) == at(s.ma), "try_emplace returns the object"); } return true;
        case 7: OP(a = none); s.a = none; s.ma = -1; return true;
        case 8: OP(a.reset()); s.a.reset(); s.ma = -1; return true;
        case 9: OP(a = const b); s.a = std::as_const(s.b); s.ma = s.mb; return true;
        case 10: OP(a = b); s.a = s.b; s.ma = s.mb; return true;
        case 11: OP(a = move(b)); s.a = std::move(s.b); s.ma = s.mb; return true;      // a trivial copy: the source keeps its referent
        case 12: OP(a = a); { auto& r = s.a; s.a = r; } return true;
        case 13: OP(a = move(a)); { auto& r = s.a; s.a = std::move(r); } return true;
        case 14: OP(a.swap(b)); s.a.swap(s.b); std::swap(s.ma, s.mb); return true;
        case 15: OP(swap(a b)); { using std::swap; swap(s.a, s.b); } std::swap(s.ma, s.mb); return true;
        case 16: OP(b = a.take()); s.b = s.a.take(); s.mb = s.ma; s.ma = -1; return true;
        case 17: OP(b = a.take_if(true)); s.b = s.a.take_if([&](T& r) { MC_CHECK(std::addressof(r) == at(s.ma), "take_if passes the object"); return true; }); s.mb = s.ma; s.ma = -1; return true;
        case 18: OP(b = a.take_if(false)); s.b = s.a.take_if([](T&) { return false; }); s.mb = -1; return true;
        case 19: OP(a = O(b)); { O t(s.b); s.a = t; } s.ma = s.mb; return true;
        case 20: OP(a = O(move(b))); { O t(std::move(s.b)); s.a = std::move(t); } s.ma = s.mb; return true;
        case 21: OP(a |= b); s.a |= s.b; if (s.ma < 0) s.ma = s.mb; return true;
        case 22: OP(a = a | b); s.a = s.a | s.b; if (s.ma < 0) s.ma = s.mb; return true;
        case 23: OP(a = a & b); s.a = s.a & s.b; s.ma = s.ma < 0 ? -1 : s.mb; return true;
        case 24: OP(a = a ^ b); s.a = s.a ^ s.b; s.ma = s.ma < 0 ? s.mb : s.mb < 0 ? s.ma : -1; return true;
        case 25: OP(a = a.filter(true)); { O t = std::as_const(s.a).filter([&](T& r) { return std::addressof(r) == at(s.ma); }); s.a = t; } return true;
        case 26: OP(a = a.filter(false)); { O t = s.a.filter([](T&) { return false; }); same_as(s.a, at(s.ma), "filter changes the option"); s.a = t; } s.ma = -1; return true;
        case 27: OP(a = a.or_else(b)); { int n = 0; O t = std::as_const(s.a).or_else([&] { ++n; return s.b; }); MC_CHECK(n == (s.ma < 0), "or_else calls the function only when empty"); s.a = t; } if (s.ma < 0) s.ma = s.mb; return true;
        case 28: OP(a = a.and_then(b)); { int n = 0; O t = s.a.and_then([&](T& r) { ++n; MC_CHECK(std::addressof(r) == at(s.ma), "and_then passes the object"); return s.b; }); MC_CHECK(n == (s.ma >= 0), "and_then calls the function only when engaged"); s.a = t; } s.ma = s.ma < 0 ? -1 : s.mb; return true;
        case 29: OP(a = O(object)); { O t(obj(1)); O u = obj(0); s.a = u; s.a = t; } s.ma = 1; return true;
        case 30: if constexpr (!RV) return kind([&] { OP(a = reference_wrapper); s.a = std::ref(static_cast<T&>(p.x[2])); s.ma = 2; }); else return false;
        case 31: if constexpr (!RV) return kind([&] { OP(a = O(reference_wrapper)); O t(std::ref(static_cast<T&>(p.x[0]))); O u = t; u.emplace(std::ref(static_cast<T&>(p.x[1]))); s.a = u; s.ma = 1; }); else return false;
        default: break;
        }
        if constexpr (CONV) switch (k - BASE) {
        case 0: OP(a = const c); s.a = std::as_const(s.c); s.ma = s.mc; return true;
        case 1: OP(a = move(c)); s.a = std::move(s.c); s.ma = s.mc; return true;
        case 2: OP(a = O(c)); { O t = std::as_const(s.c); s.a = t; } s.ma = s.mc; return true;
        case 3: OP(a = O(move(c))); { O t(std::move(s.c)); s.a = t; } s.ma = s.mc; return true;
        case 4: OP(c = object); s.c = static_cast<S>(p.x[1]); s.mc = 1; return true;
        case 5: OP(c = none); s.c = none; s.mc = -1; return true;
        }
        return false;
    }
    long long seqs = 0;
    void dfs(const state& from, int depth) {
        for (int k = 0; k < N; ++k) {
            state s = from;                      // copying an option of a reference is itself a bitwise copy of the referent's identity
            const int d = mc::depth;
            if (!apply(s, k)) { mc::depth = d; continue; }
            compare(s);
            if (depth > 1) dfs(s, depth - 1); else { ++mc::stats.traces; if (++seqs % 50021 == 7) mc::sample_trace(); }
            mc::depth = d;
        }
    }
    void all(const char* name, int depth) {
        mc::set_ctx(name); mc::clear(); std::memcpy(image, static_cast<const void*>(p.x), sizeof image);
        for (int a = -1; a < 3; ++a) for (int b = -1; b < 3; ++b) for (int c = -1; c < (CONV ? 2 : 0); ++c) {
            ++mc::stats.states; mc::clear(); mc::push("a", a); mc::push("b", b); mc::push("c", c); touched = 0;
            state s; s.ma = a; s.mb = b; s.mc = c;
            if (a >= 0) s.a.emplace(obj(a));
            if (b >= 0) s.b = obj(b);
            if (c >= 0) s.c = static_cast<S>(p.x[c]);
            compare(s); dfs(s, depth);
        }
        queries(std::bool_constant<!std::is_abstract_v<T> && !std::is_array_v<T>>{});
    }
    // value-returning queries on every engagement, constness and category
    void queries(std::false_type) {}
    void queries(std::true_type) {
        for (int m = -1; m < 3; ++m) {
            config cf("queries", "", m); touched = 0; O a; if (m >= 0) a = obj(m); const O& ca = a; T* w = at(m); OP(queries);
            auto is = [&](auto&& r) { return std::addressof(r) == w; };
            int n = 0;
            auto see = [&](auto&& r) -> int { static_assert(same<decltype(r), T&> || same<decltype(r), R&&>); ++n; MC_CHECK(std::addressof(r) == w, "a function receives another object"); return 4; };
            auto m1 = a.map(see); auto m2 = ca.map(see); auto m3 = std::move(a).map(see); auto m4 = std::move(ca).map(see);
            MC_CHECK(n == (m >= 0 ? 4 : 0) && m1.has_value() == (m >= 0) && m2 == m1 && m3 == m1 && m4 == m1, "map"); n = 0;
            MC_CHECK(a.map_or(9, see) == (m >= 0 ? 4 : 9) && ca.map_or(9, see) == (m >= 0 ? 4 : 9) && std::move(a).map_or(9, see) == (m >= 0 ? 4 : 9) && a.map_or_else([] { return 8; }, see) == (m >= 0 ? 4 : 8), "map_or"); MC_CHECK(n == (m >= 0 ? 4 : 0), "map_or calls"); n = 0;
            a.inspect(see); ca.inspect(see); std::move(a).inspect(see); MC_CHECK(n == (m >= 0 ? 3 : 0), "inspect calls"); n = 0;
            MC_CHECK(a.has_value_and([&](T& r) { return is(r); }) == (m >= 0) && !ca.has_value_and([](T&) { return false; }), "has_value_and");
            { auto back = a.map([](T& r) -> T& { return r; }); static_assert(same<decltype(back), opt::option<T&>>); MC_CHECK(back.ptr_or_null() == w, "map to a reference"); }
            if constexpr (!RV) { // the alternative of value_or is itself a reference
                T& alt = *at(1); MC_CHECK(std::addressof(a.value_or(alt)) == (w ? w : at(1)) && std::addressof(ca.value_or(alt)) == (w ? w : at(1)), "value_or designates the object or the alternative"); static_assert(same<decltype(a.value_or(alt)), T&>);
                auto z = opt::zip(a, ca); MC_CHECK(z.has_value() == (m >= 0) && (m < 0 || (std::addressof(std::get<0>(*z)) == w && std::addressof(std::get<1>(*z)) == w)), "zip of references"); static_assert(same<decltype(z), opt::option<std::tuple<T&, T&>>>);
                auto zw = opt::zip_with([](T& x, T& y) -> T& { return std::addressof(x) == std::addressof(y) ? x : throw 1; }, a, ca); MC_CHECK(zw.ptr_or_null() == w, "zip_with to a reference");
            }
            opt::option<O> nested; if (m >= 0) nested = a; MC_CHECK(opt::flatten(nested).ptr_or_null() == w, "flatten of an option of an option of a reference");
            nested.emplace(); MC_CHECK(nested.has_value() && !nested->has_value() && !opt::flatten(nested).has_value(), "an engaged empty option");
            nested.emplace(a); MC_CHECK(nested.has_value() && nested->has_value() == (m >= 0) && nested->ptr_or_null() == w, "option in option");
            try { MC_CHECK(is(ca.value()) && m >= 0, "value"); } catch (const opt::bad_access&) { MC_CHECK(m < 0, "value throws on an engaged option"); }
            try { MC_CHECK(std::addressof(a.value_or_throw()) == w && m >= 0, "value_or_throw"); } catch (const opt::bad_access&) { MC_CHECK(m < 0, "value_or_throw throws on an engaged option"); }
            MC_CHECK(touched == 0, "a referent was copied, moved or assigned"); MC_CHECK(std::memcmp(static_cast<const void*>(p.x), image, sizeof image) == 0, "a referent was modified");
        }
    }
};

// ---- which sources are accepted ----
struct priv_derived : private counted {};
struct conv_to_counted { operator counted&() const; operator counted() const; };
struct incomplete;
template<class... Ts> struct list {};
template<class R, class U> constexpr bool bindable = // U: the type of the expression, as a reference
    std::is_lvalue_reference_v<R> == std::is_lvalue_reference_v<U> && std::is_convertible_v<std::remove_reference_t<U>*, std::remove_reference_t<R>*>;
template<class R, class U> void source(const char* r, const char* u) {
    using O = opt::option<R>; constexpr bool w = bindable<R, U>;
    mc::set_ctx(r); config cf(u, "", 0); OP(source); OP(assign);
    MC_CHECK((std::is_constructible_v<O, U> == w), "construction from this expression");
    MC_CHECK((std::is_convertible_v<U, O> == w), "implicit construction from this expression");
    MC_CHECK((std::is_assignable_v<O&, U> == w), "assignment from this expression");
    using S = opt::option<U>; constexpr bool sw = w || std::is_same_v<R, U>; OP(option sources);
    MC_CHECK((std::is_constructible_v<O, const S&> == sw) && (std::is_constructible_v<O, S> == sw) && (std::is_constructible_v<O, S&> == sw), "construction from an option of this reference");
    MC_CHECK((std::is_convertible_v<const S&, O> == sw) && (std::is_convertible_v<S, O> == sw), "implicit construction from an option of this reference");
    MC_CHECK((std::is_assignable_v<O&, const S&> == sw) && (std::is_assignable_v<O&, S> == sw), "assignment from an option of this reference");
}
template<class R, class... Us> void sources(const char* r, list<Us...>) { int i = 0; char b[64]; ((std::snprintf(b, sizeof b, "source %d", i++), source<R, Us>(r, b)), ...); }
template<class... Rs> void matrix(list<Rs...> l) { int i = 0; char b[64]; ((std::snprintf(b, sizeof b, "reference type %d", i++), sources<Rs>(b, l)), ...); }
template<class R> void never(const char* r) { // plain rejections
    using O = opt::option<R>; using T = std::remove_reference_t<R>; mc::set_ctx(r); config cf("never", ""); OP(never);
    MC_CHECK((!std::is_constructible_v<O, std::in_place_t>) && (!std::is_constructible_v<O, int, int>) && (!std::is_constructible_v<O, std::in_place_t, T&, T&>) && (!std::is_constructible_v<O, T&, T&>), "a reference is bound to exactly one object");
    MC_CHECK((!std::is_constructible_v<O, std::nullptr_t>) && (!std::is_assignable_v<O&, std::nullptr_t>) && (!std::is_constructible_v<O, T*>) && (!std::is_assignable_v<O&, T*>), "pointers are not references");
    MC_CHECK((std::is_trivially_copyable_v<O>) && (std::is_nothrow_default_constructible_v<O>) && (std::is_trivially_destructible_v<O>) && sizeof(O) == sizeof(void*), "an option of a reference is a pointer");
    MC_CHECK((std::is_constructible_v<O, opt::none_t>) && (std::is_assignable_v<O&, opt::none_t>) && (!std::is_constructible_v<O, const opt::option<std::remove_cv_t<T>>&>), "an option of a value does not bind");
}
// matching references only through a wrapper of the same or less const type
template<class T> void wrappers(const char* n) {
    mc::set_ctx(n); config cf("reference_wrapper"); OP(reference_wrapper); using W = std::reference_wrapper<T>; using CW = std::reference_wrapper<const T>;
    MC_CHECK((std::is_constructible_v<opt::option<T&>, W>) && (std::is_convertible_v<W, opt::option<T&>>) && (std::is_assignable_v<opt::option<T&>&, W>), "reference_wrapper<T> to T&");
    MC_CHECK((std::is_constructible_v<opt::option<const T&>, W>) && (std::is_assignable_v<opt::option<const T&>&, W>) && (std::is_constructible_v<opt::option<const T&>, CW>) && (std::is_assignable_v<opt::option<const T&>&, CW>), "reference_wrapper to const T&");
    MC_CHECK((!std::is_constructible_v<opt::option<T&>, CW>) && (!std::is_assignable_v<opt::option<T&>&, CW>), "reference_wrapper<const T> to T&");
}
template<class F, class G> void functions(F f, G g) {
    mc::set_ctx("function"); using R = int (&)(int); config cf("function"); OP(function); opt::option<R> a, b(*f); MC_CHECK(!a && b && b.ptr_or_null() == f && (*b)(1) == f(1) && a.ptr_or_null() == nullptr, "option of a reference to function"); a = b; MC_CHECK(a.ptr_or_null() == f, "copy"); a = *g; MC_CHECK(a.ptr_or_null() == g && b.ptr_or_null() == f, "rebind"); a.swap(b); MC_CHECK(a.ptr_or_null() == f && b.ptr_or_null() == g, "swap"); a.reset(); MC_CHECK(!a, "reset"); MC_CHECK(b.map([](R r) { return r(5); }) == g(5), "map");
}
int f1(int x) { return x + 1; }
int f2(int x) { return x + 2; }
}
int main() {
    mc::init(); const int D = mc::thorough() ? 3 : 2; (void)D;
#if PART == 0
    run<int&, int&, int, true>{}.all("int& and int&", D);
    run<const int&, int&, int, true>{}.all("const int& from int&", D);
    run<counted&, derived&, derived, true>{}.all("base& from derived&", D);
    run<const counted&, derived&, derived, true>{}.all("const base& from derived&", D);
    run<bool&, bool&, bool, false>{}.all("bool&", D);
#elif PART == 1
    run<counted&&, derived&&, derived, true>{}.all("base&& from derived&&", D);
    run<const counted&&, counted&&, counted, true>{}.all("const T&& from T&&", D);
    run<abstract&, concrete&, concrete, true>{}.all("abstract& from concrete&", D);
    run<addr&, addr&, addr, false>{}.all("T& with overloaded operator&", D);
    run<assigns_any&, assigns_any&, assigns_any, false>{}.all("T& assignable from anything", D);
    run<int*&, int*&, int*, false>{}.all("int*&", D);
    run<int (&)[3], int (&)[3], int[3], false>{}.all("int(&)[3]", D);
#elif PART == 2
    matrix(list<int&, const int&, volatile int&, int&&, const int&&, long&, long&&, double&, counted&, const counted&, counted&&, const counted&&, derived&, const derived&, derived&&, const derived&&, priv_derived&, conv_to_counted&, conv_to_counted&&, bool&, char&, int*&, const int*&, const int* const&, incomplete&, const incomplete&, std::string&, const std::string&, std::string&&>{});
    never<int&>("int&"); never<const int&>("const int&"); never<int&&>("int&&"); never<counted&>("class&"); never<counted&&>("class&&"); never<const std::string&>("const string&"); never<bool&>("bool&");
    wrappers<int>("int"); wrappers<counted>("class"); wrappers<std::string>("string");
    functions(&f1, &f2);
    { mc::set_ctx("incomplete"); config cf("incomplete"); OP(incomplete); alignas(16) static char buf[2]; auto& x = reinterpret_cast<incomplete&>(buf[0]); auto& y = reinterpret_cast<incomplete&>(buf[1]); opt::option<incomplete&> a, b(x); opt::option<const incomplete&> c(b); a = y; MC_CHECK(a.ptr_or_null() == reinterpret_cast<incomplete*>(&buf[1]) && c.ptr_or_null() == reinterpret_cast<incomplete*>(&buf[0]), "references to an incomplete type"); b = a; c = b; MC_CHECK(c.ptr_or_null() == reinterpret_cast<incomplete*>(&buf[1]) && b.ptr_or_null() == reinterpret_cast<incomplete*>(&buf[1]), "references to an incomplete type"); }
#endif
    return mc::finish();
}
