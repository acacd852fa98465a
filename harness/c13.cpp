// C13: hash of options over every payload kind, state and history; availability.
#include "fn.hpp"
#include <cmath>
#include <limits>
#include <map>
#include <set>
#include <thread>
#include <typeindex>
#include <bitset>
#include <system_error>
#include <unordered_set>
#include <variant>
using namespace fn;
using opt::none; using opt::option;
template<class O> std::size_t H(const O& o) { return std::hash<O>{}(o); }
// Every short history that ends empty or holding v[i]: the hash depends on the final state only.
template<class T> void histories(const char* name, const std::vector<T>& v) {
    using O = option<T>; mc::set_ctx(name);
    const std::size_t empty = H(O()); const int n = int(v.size());
    MC_CHECK(empty == H(option<int>()) && empty == H(option<std::string>()), "one constant for empty options of every payload");
    auto build = [&](int s) { O o; if (s >= 0) o.emplace(v[std::size_t(s)]); return o; };
    MC_CHECK((std::is_default_constructible_v<std::hash<O>> && std::is_copy_constructible_v<std::hash<O>> && std::is_copy_assignable_v<std::hash<O>> && same<decltype(std::hash<O>{}(std::declval<const O&>())), std::size_t>), "hash of options is a hash");
    for (int from = -1; from < n; ++from) for (int to = -1; to < n; ++to) for (int way = 0; way < 8; ++way) {
        config cf("history", "", from * 100 + to, way); O o = build(from); OP(reach state);
        if (to < 0) switch (way) { case 0: o.reset(); break; case 1: o = none; break; case 2: { O t = o.take(); (void)t; break; } case 3: { O t; o.swap(t); break; } case 4: { O t; o = t; break; } case 5: { O t; o = std::move(t); break; } case 6: { O t = o.take_if([](auto&) { return true; }); (void)t; break; } default: { o.reset(); if (n > 0) o.emplace(v[0]); o.reset(); } }
        else { const T& x = v[std::size_t(to)]; switch (way) { case 0: o = x; break; case 1: o.emplace(x); break; case 2: o.reset(); o.emplace(x); break; case 3: { O t = build(to); o.swap(t); break; } case 4: { O t = build(to); o = t; break; } case 5: { O t = build(to); o = std::move(t); break; } case 6: { O t = build(to); O u(t); o = none; o |= u; break; } default: { O t = build(to); o = t.take(); } } }
        O copy(o);
        if (to < 0) MC_CHECK(H(o) == empty && H(copy) == empty, "every empty option hashes to the same constant");
        else { const std::size_t want = std::hash<T>{}(v[std::size_t(to)]); MC_CHECK(H(o) == want && H(copy) == want, "an engaged option hashes like its value"); option<const T> ct(v[std::size_t(to)]); MC_CHECK(std::hash<option<const T>>{}(ct) == want, "const payload hashes like the value"); }
        for (int j = -1; j < n; ++j) { const O p = build(j); ++mc::stats.transitions; if (p == o) MC_CHECK(H(p) == H(o), "options that compare equal hash equal"); }
        MC_CHECK(o.has_value() == (to >= 0) && (to < 0 || *o == v[std::size_t(to)] || v[std::size_t(to)] != v[std::size_t(to)]), "hashing changed the option");
    }
}
enum class plain { a, b }; enum old { x0, x1 };
struct cust { int v; bool operator==(const cust& o) const { return v % 10 == o.v % 10; } bool operator!=(const cust& o) const { return !(*this == o); } };
template<> struct std::hash<cust> { std::size_t operator()(const cust& c) const { return std::size_t(c.v % 10) + 7; } };
template<> struct std::hash<L1> { std::size_t operator()(const L1& c) const noexcept { return std::size_t(c.v) * 31 + 5; } };
struct unhashable { int v; }; struct deleted_hash {}; template<> struct std::hash<deleted_hash> { std::size_t operator()(const deleted_hash&) const = delete; };
struct nonconst_hash {}; template<> struct std::hash<nonconst_hash> { std::size_t operator()(nonconst_hash&) const; };
template<class T> constexpr bool hashable = std::is_default_constructible_v<std::hash<T>>;
template<class T, class = void> constexpr bool callable = false;
template<class T> constexpr bool callable<T, std::void_t<decltype(std::hash<T>{}(std::declval<const T&>()))>> = true;
template<class T> void avail(bool want, const char* n) { mc::set_ctx("availability", n); config cf("availability"); OP(hash); MC_CHECK(callable<option<T>> == want, "hash<option<T>> usable exactly when hash<T> is"); MC_CHECK((callable<option<const T>> == want), "hash<option<const T>> usable exactly when hash<T> is"); MC_CHECK((callable<option<option<T>>> == want), "hash<option<option<T>>> usable exactly when hash<T> is"); }
struct cont { int v; };
template<class F> void refs(const char* name, F bind) {
    mc::set_ctx(name); static int i = 1, j = 1, k = 2; int* ps[] = {nullptr, &i, &j, &k};
    for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) { config cf("pair", "", a, b); OP(hash); auto oa = bind(ps[a]), ob = bind(ps[b]);
        if (a == b) MC_CHECK(H(oa) == H(ob), "options of references to the same object (or empty) hash equal");
        else if (oa == ob) MC_CHECK(H(oa) == H(ob), "options of references to equal objects compare equal but hash differently");
        if (a == 0) { auto c = oa; c = bind(ps[b]); c.reset(); MC_CHECK(H(c) == H(oa), "emptied options of references hash equal"); } }
}
int main() {
    mc::init();
    const double inf = std::numeric_limits<double>::infinity();
    histories<int>("int", {0, 1, -1, 2147483647}); histories<bool>("bool", {false, true}); histories<char>("char", {'a', '\0', '\xff'}); histories<unsigned long>("unsigned long", {0, 1, ~0ul}); histories<double>("double", {0.0, -0.0, 1.5, inf, -inf}); histories<float>("float", {0.0f, -0.0f, 1.5f}); histories<long double>("long double", {0.0L, 1.5L});
    static int arr[2]; histories<int*>("pointer", {nullptr, arr, arr + 1}); histories<plain>("enum", {plain::a, plain::b}); histories<EN>("enum with SENTINEL", {EN::a, EN::b}); histories<old>("unscoped enum", {x0, x1}); histories<std::string>("string", {"", "a", std::string(60, 'x')}); histories<std::string_view>("string_view", {std::string_view(), "", "ab"});
    histories<std::shared_ptr<int>>("shared_ptr", {nullptr, std::make_shared<int>(1)}); histories<cust>("custom hash", {{1}, {11}, {2}}); histories<L1>("custom hash and traits", {L1(1), L1(2)}); histories<std::type_index>("type_index", {typeid(int), typeid(double)}); histories<std::vector<bool>>("vector<bool>", {{}, {true}, {true, false}}); histories<std::bitset<4>>("bitset", {0, 5}); histories<std::error_code>("error_code", {{}, std::make_error_code(std::errc::io_error)});
    histories<std::optional<int>>("std::optional", {std::nullopt, 0, 1}); histories<std::variant<int, bool>>("variant", {0, 1, false, true}); histories<std::thread::id>("thread::id", {std::thread::id(), std::this_thread::get_id()});
    using ob = option<bool>; using oob = option<ob>; using oi = option<int>; using ol = option<L1>; histories<ob>("option<bool>", {ob(), ob(false), ob(true)}); histories<oob>("option<option<bool>>", {oob(), oob(std::in_place), oob(true)}); histories<oi>("option<int>", {oi(), oi(0), oi(1)}); histories<ol>("option<custom traits>", {ol(), ol(1), ol(2)}); histories<option<oi>>("option<option<int>>", {{}, option<oi>(std::in_place), option<oi>(1)});
    mc::set_ctx("unique_ptr"); for (int s = 0; s < 3; ++s) { config cf("state", "", s); OP(hash); option<std::unique_ptr<int>> o; if (s == 1) o.emplace(); if (s == 2) o.emplace(new int(1)); if (s) MC_CHECK(H(o) == std::hash<std::unique_ptr<int>>{}(*o), "an engaged option hashes like its value"); else MC_CHECK(H(o) == H(option<std::unique_ptr<int>>()), "empty"); }
    // all bytes and all 16-bit values: hash equals the value's hash, and stale bytes never matter
    mc::set_ctx("complete small types"); { config cf("all values"); const std::size_t ec = H(option<unsigned char>()), es = H(option<short>()); for (int v = 0; v < 65536; ++v) { ++mc::stats.transitions; option<short> s = short(v); MC_CHECK(H(s) == std::hash<short>{}(short(v)), "an engaged option hashes like its value"); s.reset(); MC_CHECK(H(s) == es, "every empty option hashes to the same constant"); if (v < 256) { option<unsigned char> c = (unsigned char)v; MC_CHECK(H(c) == std::hash<unsigned char>{}((unsigned char)v), "an engaged option hashes like its value"); c.reset(); MC_CHECK(H(c) == ec, "every empty option hashes to the same constant"); } } }
    avail<int>(true, "int"); avail<plain>(true, "enum"); avail<std::string>(true, "string"); avail<cust>(true, "custom"); avail<unhashable>(false, "class without hash"); avail<std::vector<int>>(false, "vector<int>"); avail<deleted_hash>(false, "deleted call"); avail<nonconst_hash>(false, "hash of non-const only"); avail<std::unique_ptr<unhashable>>(true, "unique_ptr"); avail<std::pair<int, int>>(false, "pair"); avail<AG>(false, "aggregate"); avail<std::optional<int>>(true, "optional"); avail<std::optional<AG>>(false, "optional of unhashable");
    mc::set_ctx("availability"); { config cf("disabled hash"); OP(hash); MC_CHECK(!hashable<option<unhashable>> && !std::is_copy_constructible_v<std::hash<option<unhashable>>>, "a disabled hash is not constructible"); MC_CHECK(noexcept(std::hash<option<L1>>{}(std::declval<option<L1>&>())) && !noexcept(std::hash<option<cust>>{}(std::declval<option<cust>&>())), "noexcept as the payload's hash"); }
    refs("option<int&>", [](int* p) { return p ? option<int&>(*p) : option<int&>(); }); refs("option<const int&>", [](int* p) { return p ? option<const int&>(*p) : option<const int&>(); }); refs("option<int&&>", [](int* p) { return p ? option<int&&>(std::move(*p)) : option<int&&>(); });
    return mc::finish();
}
