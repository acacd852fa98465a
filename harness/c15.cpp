// C15: at, at_front, at_back, lookup, get: every container size, index, key set, alternative and value category in bounds.
#include "fn.hpp"
#include <deque>
#include <list>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#if __cplusplus >= 202002L
    #include <span>
#endif
using namespace fn;
namespace {
template<class E, cat C> using ref_t = std::conditional_t<is_rv<C>, E&&, E&>; // E carries its constness
// the element (or nullptr) an option of a reference designates, and nothing but a reference
template<class O, class P> void designates(O&& o, P* want, const char* what) {
    ++mc::stats.checks; const auto& c = o;
    if (c.has_value() != (want != nullptr) || c.ptr_or_null() != want || (want && std::addressof(*c) != want)) MC_CHECK(false, what);
}
// ---------- containers ----------
constexpr std::size_t M = std::size_t(-1);
const std::size_t far_indices[] = {M, M - 1, M / 2, M / 2 + 1, std::size_t(1) << 32, (std::size_t(1) << 32) + 1, (std::size_t(1) << 31), 256, 257, 65536, 65537, 1000};
template<class Vec> Vec fill(std::size_t n) { Vec v; for (std::size_t i = 0; i < n; ++i) v.push_back(typename Vec::value_type(i + 1)); return v; }
template<class Vec> void seq_at(const char* name, Vec& v, std::size_t n) {
    mc::set_ctx(name); using E = std::remove_reference_t<decltype(v[0])>;
    each_cat([&](auto c_) { constexpr cat C = c_.value; using V = as_t<C, Vec>; using EC = std::remove_reference_t<decltype(std::declval<V>()[0])>; (void)sizeof(E);
        auto one = [&](std::size_t i) { config cf("at", cat_name[C], (long long)n, (long long)i); Vec before = v; OP(at); auto o = opt::at(as<C>(v), i); static_assert(same<decltype(o), opt::option<ref_t<EC, C>>>);
            EC* want = nullptr; if (i < n) want = std::addressof(const_cast<EC&>(static_cast<const EC&>(v[i]))); designates(o, want, "at designates the element exactly when the index is valid");
            MC_CHECK(v == before, "at modifies the container"); };
        for (std::size_t i = 0; i < n + 3; ++i) one(i);
        for (std::size_t i : far_indices) one(i); });
}
template<class Vec> void seq_ends(const char* name, Vec& v, std::size_t n) {
    mc::set_ctx(name);
    each_cat([&](auto c_) { constexpr cat C = c_.value; using V = as_t<C, Vec>; using EC = std::remove_reference_t<decltype(std::declval<V>().front())>;
        config cf("front and back", cat_name[C], (long long)n); Vec before = v; OP(at_front); OP(at_back); auto f = opt::at_front(as<C>(v)); auto b = opt::at_back(as<C>(v)); static_assert(same<decltype(f), opt::option<ref_t<EC, C>>> && same<decltype(b), opt::option<ref_t<EC, C>>>);
        EC* wf = nullptr; EC* wb = nullptr; if (n) { wf = std::addressof(const_cast<EC&>(static_cast<const EC&>(v.front()))); wb = std::addressof(const_cast<EC&>(static_cast<const EC&>(v.back()))); }
        designates(f, wf, "at_front designates the first element exactly when there is one"); designates(b, wb, "at_back designates the last element exactly when there is one");
        MC_CHECK(v == before, "the container is modified"); });
}
template<class Vec> void growable(const char* name, bool index) { for (std::size_t n = 0; n <= 5; ++n) { Vec v = fill<Vec>(n); (void)index; seq_ends(name, v, n); if constexpr (!std::is_same_v<Vec, std::list<int>>) seq_at(name, v, n); } }
template<class E, std::size_t N> void arr(const char* name) { std::array<E, N> a{}; for (std::size_t i = 0; i < N; ++i) a[i] = E(i + 1); seq_at(name, a, N); seq_ends(name, a, N); }
// elements returned by value (proxies): the option holds the proxy itself
void proxies() {
    mc::set_ctx("vector<bool>");
    for (int n = 0; n <= 3; ++n) for (unsigned bits = 0; bits < (1u << n); ++bits) for (std::size_t i = 0; i < 5; ++i) {
        config cf("proxy", "", n, (long long)(bits * 8 + i)); OP(at); std::vector<bool> v; for (int k = 0; k < n; ++k) v.push_back(bits >> k & 1); const auto& cv = v;
        auto c = opt::at(cv, i); static_assert(same<decltype(c), opt::option<std::vector<bool>::const_reference>>); MC_CHECK(c.has_value() == (i < v.size()) && (i >= v.size() || *c == bool(bits >> i & 1)), "at of a const vector<bool>");
        auto f = opt::at_front(cv); auto b = opt::at_back(cv); MC_CHECK(f.has_value() == (n > 0) && b.has_value() == (n > 0) && (n == 0 || (*f == v.front() && *b == v.back())), "ends of a const vector<bool>");
        auto o = opt::at(v, i); static_assert(same<decltype(o), opt::option<std::vector<bool>::reference>>); MC_CHECK(o.has_value() == (i < v.size()), "at of a vector<bool>");
        if (o) { auto w = v; w[i] = !w[i]; bool x = *o; *o = !x; MC_CHECK(v == w, "the proxy designates the element"); }
        auto t = opt::at(std::move(cv), i); static_assert(same<decltype(t), opt::option<std::vector<bool>::const_reference>>); MC_CHECK(t.has_value() == (i < std::size_t(n)), "at of an rvalue");
    }
}
struct small_size { // a size type of eight bits, an index operator which fails on invalid indices and counts its calls
    static constexpr bool indexed = true; int data[4]; std::uint8_t n; mutable int calls = 0, sizes = 0; explicit small_size(int k) : data{5, 6, 7, 8}, n(std::uint8_t(k)) {}
    std::uint8_t size() const { ++sizes; return n; }
    int& operator[](std::size_t i) & { ++calls; MC_CHECK(i < n, "an element outside of the container is accessed"); return data[i < 4 ? i : 0]; }
    const int& operator[](std::size_t i) const& { ++calls; MC_CHECK(i < n, "an element outside of the container is accessed"); return data[i < 4 ? i : 0]; }
    int&& operator[](std::size_t i) && { ++calls; MC_CHECK(i < n, "an element outside of the container is accessed"); return std::move(data[i < 4 ? i : 0]); }
    const int&& operator[](std::size_t i) const&& { ++calls; MC_CHECK(i < n, "an element outside of the container is accessed"); return std::move(data[i < 4 ? i : 0]); }
    int& front() & { return (*this)[0]; } const int& front() const& { return (*this)[0]; } int&& front() && { return std::move(*this)[0]; } const int&& front() const&& { return std::move(*this)[0]; }
    int& back() & { return (*this)[std::size_t(n - 1)]; } const int& back() const& { return (*this)[std::size_t(n - 1)]; } int&& back() && { return std::move(*this)[std::size_t(n - 1)]; } const int&& back() const&& { return std::move(*this)[std::size_t(n - 1)]; }
    bool operator==(const small_size& o) const { return n == o.n && std::equal(data, data + 4, o.data); }
};
void custom() {
    mc::set_ctx("custom container");
    for (int n = 0; n <= 4; ++n) each_cat([&](auto c_) { constexpr cat C = c_.value; using E = std::conditional_t<C == CLV || C == CRV, const int, int>;
        auto one = [&](std::size_t i) { config cf("custom", cat_name[C], n, (long long)i); OP(at); small_size s(n); auto o = opt::at(as<C>(s), i); static_assert(same<decltype(o), opt::option<ref_t<E, C>>>); designates(o, i < s.n ? static_cast<E*>(&s.data[i]) : static_cast<E*>(nullptr), "at designates the element"); MC_CHECK(s.calls == (i < s.n), "operator[] is called exactly when the index is valid"); };
        for (std::size_t i = 0; i < std::size_t(n) + 3; ++i) one(i);
        for (std::size_t i : far_indices) one(i);
        for (std::size_t k = 1; k < 5; ++k) for (std::size_t i = 0; i < 4; ++i) one((std::size_t(1) << (8 * k)) + i);
        config cf("custom ends", cat_name[C], n); small_size s(n); auto f = opt::at_front(as<C>(s)); auto b = opt::at_back(as<C>(s)); static_assert(same<decltype(f), opt::option<ref_t<E, C>>> && same<decltype(b), opt::option<ref_t<E, C>>>); designates(f, n ? static_cast<E*>(&s.data[0]) : static_cast<E*>(nullptr), "at_front"); designates(b, n ? static_cast<E*>(&s.data[n - 1]) : static_cast<E*>(nullptr), "at_back"); });
}
// ---------- lookup ----------
template<class V> V mapped(int k) { if constexpr (std::is_same_v<V, std::string>) return std::string(std::size_t(k * 10 + 1), char('a' + k)); else return V(k * 10 + 1); }
template<class Map, class Key, class MakeKey> void map_lookup(const char* name, MakeKey mk) {
    mc::set_ctx(name);
    for (unsigned set = 0; set < 32; ++set) {
        Map m; for (int k = 0; k < 5; ++k) if (set >> k & 1) m.emplace(mk(k), mapped<typename Map::mapped_type>(k));
        const Map& cm = m;
        for (int k = -1; k < 6; ++k) for (int v = 0; v < 3; ++v) {
            config cf("lookup", "", set, k * 4 + v); OP(lookup); const Map before = m; Key key(mk(k)); const Key kept = key; auto it = m.find(mk(k)); using V = typename Map::mapped_type; V* want = it == m.end() ? nullptr : std::addressof(it->second);
            MC_CHECK((want != nullptr) == (k >= 0 && k < 5 && (set >> k & 1)), "model");
            if (v == 0) { auto o = opt::lookup(m, key); static_assert(same<decltype(o), opt::option<V&>>); designates(o, want, "lookup designates the mapped value exactly when the key is there"); MC_CHECK(key == kept, "the key is modified"); }
            else if (v == 1) { auto o = opt::lookup(cm, std::as_const(key)); static_assert(same<decltype(o), opt::option<const V&>>); designates(o, static_cast<const V*>(want), "lookup in a const container"); }
            else { auto o = opt::lookup(m, Key(mk(k))); designates(o, want, "lookup of an rvalue key"); }
            MC_CHECK(m == before, "lookup modifies the container");
        }
    }
}
template<class Set, class Key, class MakeKey> void set_lookup(const char* name, MakeKey mk) {
    mc::set_ctx(name);
    for (unsigned set = 0; set < 32; ++set) {
        Set m; for (int k = 0; k < 5; ++k) if (set >> k & 1) m.emplace(mk(k));
        const Set& cm = m;
        for (int k = -1; k < 6; ++k) for (int v = 0; v < 3; ++v) {
            config cf("lookup", "", set, k * 4 + v); OP(lookup); const Set before = m; Key key(mk(k)); const Key kept = key; auto it = m.find(mk(k)); using V = typename Set::key_type; const V* want = it == m.end() ? nullptr : std::addressof(*it);
            if (v == 0) { auto o = opt::lookup(m, key); static_assert(same<decltype(o), opt::option<const V&>>); designates(o, want, "lookup designates the element exactly when it is there"); MC_CHECK(key == kept, "the key is modified"); }
            else if (v == 1) { auto o = opt::lookup(cm, std::as_const(key)); static_assert(same<decltype(o), opt::option<const V&>>); designates(o, want, "lookup in a const container"); }
            else { auto o = opt::lookup(m, Key(mk(k))); designates(o, want, "lookup of an rvalue key"); }
            MC_CHECK(m == before, "lookup modifies the container");
        }
    }
}
// ---------- get on options of tuple-likes ----------
struct mine { int a; std::string b; bool operator==(const mine& o) const { return a == o.a && b == o.b; } };
template<std::size_t I> int& get(mine& m) { return m.a; }
template<std::size_t I> const int& get(const mine& m) { return m.a; }
template<std::size_t I> int&& get(mine&& m) { return std::move(m.a); }
template<std::size_t I> const int&& get(const mine&& m) { return std::move(m.a); }
template<std::size_t I, class Tup, class Make> void get_index(const char* name, Make mk) {
    mc::set_ctx(name); using std::get; using O = opt::option<Tup>;
    for (int s = -1; s < 2; ++s) each_cat([&](auto c_) { constexpr cat C = c_.value; config cf("get by index", cat_name[C], s, I); OP(get); O o; if (s >= 0) o.emplace(mk(s));
        using R = decltype(get<I>(std::declval<as_t<C, Tup>>())); using E = std::remove_reference_t<R>; using W = std::conditional_t<is_rv<C>, E&&, E&>;
        auto r = opt::get<I>(as<C>(o)); static_assert(same<decltype(r), opt::option<W>>); E* want = nullptr; if (s >= 0) want = std::addressof(const_cast<E&>(static_cast<const E&>(get<I>(*o)))); designates(r, want, "get designates the element exactly when the option is engaged"); MC_CHECK(o.has_value() == (s >= 0) && (s < 0 || *o == mk(s)), "get modifies the option"); });
}
template<class T, class Tup, class Make> void get_type(const char* name, Make mk) {
    mc::set_ctx(name); using std::get; using O = opt::option<Tup>;
    for (int s = -1; s < 2; ++s) each_cat([&](auto c_) { constexpr cat C = c_.value; config cf("get by type", cat_name[C], s); OP(get); O o; if (s >= 0) o.emplace(mk(s));
        using R = decltype(get<T>(std::declval<as_t<C, Tup>>())); using E = std::remove_reference_t<R>; using W = std::conditional_t<is_rv<C>, E&&, E&>;
        auto r = opt::get<T>(as<C>(o)); static_assert(same<decltype(r), opt::option<W>>); E* want = nullptr; if (s >= 0) want = std::addressof(const_cast<E&>(static_cast<const E&>(get<T>(*o)))); designates(r, want, "get designates the element exactly when the option is engaged"); MC_CHECK(o.has_value() == (s >= 0) && (s < 0 || *o == mk(s)), "get modifies the option"); });
}
// an option of a reference to a tuple-like
void get_through_reference() {
    using Tup = std::pair<int, std::string>;
    mc::set_ctx("option<pair&>"); for (int s = 0; s < 2; ++s) { config cf("reference", "", s); OP(get); Tup t(3, "x"); opt::option<Tup&> o; if (s) o = t; const auto& co = o; auto a = opt::get<0>(o); auto b = opt::get<1>(co); auto c = opt::get<std::string>(o); static_assert(same<decltype(a), opt::option<int&>> && same<decltype(b), opt::option<std::string&>>); designates(a, s ? &t.first : nullptr, "first"); designates(b, s ? &t.second : nullptr, "second"); designates(c, s ? &t.second : nullptr, "by type"); if (a) { *a = 9; MC_CHECK(t.first == 9, "the element is written through the reference"); } }
    mc::set_ctx("option<const pair&>"); for (int s = 0; s < 2; ++s) { config cf("const reference", "", s); const Tup t(3, "x"); opt::option<const Tup&> o; if (s) o = t; auto a = opt::get<0>(o); static_assert(same<decltype(a), opt::option<const int&>>); designates(a, s ? &t.first : nullptr, "first"); }
    mc::set_ctx("elements that are references"); for (int s = 0; s < 2; ++s) { config cf("reference elements", "", s); int x = 1, y = 2; opt::option<std::tuple<int&, const int&>> o; if (s) o.emplace(x, y); auto a = opt::get<0>(o); auto b = opt::get<1>(std::as_const(o)); static_assert(same<decltype(a), opt::option<int&>> && same<decltype(b), opt::option<const int&>>); designates(a, s ? &x : nullptr, "T&"); designates(b, s ? &y : nullptr, "const T&"); }
}
// ---------- get on variants ----------
struct thrower { thrower() = default; thrower(const thrower&) { throw 1; } thrower(thrower&&) { throw 1; } thrower& operator=(const thrower&) { throw 1; } bool operator==(const thrower&) const { return true; } };
template<class V, std::size_t I, class Make> void var_index(const char* name, int states, Make mk) {
    mc::set_ctx(name); using T = std::variant_alternative_t<I, V>;
    for (int s = 0; s < states; ++s) each_cat([&](auto c_) { constexpr cat C = c_.value; config cf("variant by index", cat_name[C], s, I); OP(get); V v; mk(v, s); const auto idx = v.index();
        using E = std::remove_reference_t<decltype(std::get<I>(std::declval<as_t<C, V>>()))>; auto r = opt::get<I>(as<C>(v)); static_assert(same<decltype(r), opt::option<ref_t<E, C>>>); E* want = std::get_if<I>(&v); designates(r, want, "get designates the alternative exactly when it is held"); MC_CHECK(v.index() == idx, "the variant is modified"); (void)sizeof(T); });
}
template<class V, class T, class Make> void var_type(const char* name, int states, Make mk) {
    mc::set_ctx(name);
    for (int s = 0; s < states; ++s) each_cat([&](auto c_) { constexpr cat C = c_.value; config cf("variant by type", cat_name[C], s); OP(get); V v; mk(v, s); const auto idx = v.index();
        using E = std::remove_reference_t<decltype(std::get<T>(std::declval<as_t<C, V>>()))>; auto r = opt::get<T>(as<C>(v)); static_assert(same<decltype(r), opt::option<ref_t<E, C>>>); E* want = std::get_if<T>(&v); designates(r, want, "get designates the alternative exactly when it is held"); MC_CHECK(v.index() == idx, "the variant is modified"); });
}
template<class V, class Make, std::size_t... I> void var_all(const char* name, int states, Make mk, std::index_sequence<I...>) { (var_index<V, I>(name, states, mk), ...); }
}
int main() {
    mc::init();
#if PART == 0
    growable<std::vector<int>>("vector<int>", true); growable<std::deque<short>>("deque<short>", true); growable<std::string>("string", true); growable<std::u16string>("u16string", true); growable<std::list<int>>("list<int>", false);
    growable<std::vector<double>>("vector<double>", true);
    arr<int, 0>("array<int,0>"); arr<int, 1>("array<int,1>"); arr<int, 3>("array<int,3>"); arr<char, 5>("array<char,5>"); arr<const char*, 0>("array<pointer,0>");
    for (std::size_t n = 0; n <= 4; ++n) { std::string_view sv("abcd", n); seq_at("string_view", sv, n); seq_ends("string_view", sv, n); }
    { std::vector<std::vector<int>> v{{1}, {}, {2, 3}}; seq_at("vector<vector>", v, 3); seq_ends("vector<vector>", v, 3); }
    proxies(); custom();
#elif PART == 1
    auto ik = [](int k) { return k; }; auto sk = [](int k) { return std::string(std::size_t(k + 1) * 9, char('a' + k + 1)); };
    map_lookup<std::map<int, int>, int>("map<int,int>", ik); map_lookup<std::map<std::string, std::string>, std::string>("map<string,string>", [&](int k) { return sk(k); });
#elif PART == 2
    auto ik = [](int k) { return k; }; auto sk = [](int k) { return std::string(std::size_t(k + 1) * 9, char('a' + k + 1)); };
    set_lookup<std::set<int>, int>("set<int>", ik); set_lookup<std::unordered_set<std::string>, std::string>("unordered_set<string>", sk); set_lookup<std::multiset<int>, int>("multiset<int>", ik);
    map_lookup<std::map<int, bool>, int>("map<int,bool>", ik);
    map_lookup<std::unordered_map<std::string, int>, std::string>("unordered_map<string,int>", sk);
    map_lookup<std::map<std::string, int, std::less<>>, std::string_view>("map<string,int,less<>> by string_view", [](int k) { static const char* n[] = {"", "a", "bb", "ccc", "dddd", "eeeee", "f"}; return std::string_view(n[k + 1]); });
#elif PART == 3
    using P = std::pair<int, std::string>; auto mp = [](int i) { return P(i, std::string(std::size_t(i * 40), 'x')); };
    get_index<0, P>("pair<int,string>", mp); get_index<1, P>("pair<int,string>", mp); get_type<int, P>("pair<int,string>", mp); get_type<std::string, P>("pair<int,string>", mp);
    using T3 = std::tuple<bool, double, std::vector<int>>; auto mt = [](int i) { return T3(i != 0, i * 1.5, std::vector<int>(std::size_t(i * 3), 1)); };
    get_index<0, T3>("tuple<bool,double,vector>", mt); get_index<1, T3>("tuple<bool,double,vector>", mt); get_index<2, T3>("tuple<bool,double,vector>", mt); get_type<bool, T3>("tuple<bool,double,vector>", mt); get_type<double, T3>("tuple<bool,double,vector>", mt); get_type<std::vector<int>, T3>("tuple<bool,double,vector>", mt);
    using A = std::array<bool, 3>; auto ma = [](int i) { return A{{i != 0, i == 0, true}}; }; get_index<0, A>("array<bool,3>", ma); get_index<1, A>("array<bool,3>", ma); get_index<2, A>("array<bool,3>", ma);
    get_index<0, mine>("class with get", [](int i) { return mine{i, "s"}; });
    get_index<0, const P>("const pair", mp); get_index<1, const P>("const pair", mp);
    get_through_reference();
#elif PART == 4
    using V = std::variant<int, std::string, bool, std::vector<int>>; auto mv = [](V& v, int s) { if (s == 0) v = 0; else if (s == 1) v = std::string(30, 'y'); else if (s == 2) v = false; else v = std::vector<int>{1, 2}; };
    var_all<V>("variant<int,string,bool,vector>", 4, mv, std::make_index_sequence<4>{}); var_type<V, int>("variant<int,string,bool,vector>", 4, mv); var_type<V, std::string>("variant<int,string,bool,vector>", 4, mv); var_type<V, bool>("variant<int,string,bool,vector>", 4, mv); var_type<V, std::vector<int>>("variant<int,string,bool,vector>", 4, mv);
    using D = std::variant<int, int, const int>; auto md = [](D& v, int s) { if (s == 0) v.emplace<0>(1); else if (s == 1) v.emplace<1>(2); else v.emplace<2>(3); }; var_all<D>("variant with repeated types", 3, md, std::make_index_sequence<3>{});
    using X = std::variant<int, thrower>; auto mx = [](X& v, int s) { if (s == 0) v = 4; else if (s == 1) v.emplace<1>(); else { try { thrower t; v.emplace<1>(t); } catch (int) {} MC_CHECK(v.valueless_by_exception(), "model"); } }; var_all<X>("variant, possibly valueless", 3, mx, std::make_index_sequence<2>{}); var_type<X, int>("variant, possibly valueless", 3, mx);
    using M1 = std::variant<std::monostate>; var_all<M1>("variant<monostate>", 1, [](M1&, int) {}, std::make_index_sequence<1>{});
    using PV = std::variant<int*, std::unique_ptr<int>, double>; auto mpv = [](PV& v, int s) { static int z; if (s == 0) v = static_cast<int*>(nullptr); else if (s == 1) v = &z; else if (s == 2) v = std::unique_ptr<int>(); else if (s == 3) v = std::make_unique<int>(3); else v = 0.0; }; var_all<PV>("variant<pointer,unique_ptr,double>", 5, mpv, std::make_index_sequence<3>{}); var_type<PV, int*>("variant<pointer,unique_ptr,double>", 5, mpv); var_type<PV, std::unique_ptr<int>>("variant<pointer,unique_ptr,double>", 5, mpv);
#endif
    return mc::finish();
}
