// C23: options as elements and keys of standard containers and as the subject of standard algorithms: all operation sequences up to a
// depth on the real containers, in lockstep with containers of numbers (-1 = empty, 0, 1, 2 = the values, in that order).
#include "mc.hpp"
#include <opt/option.hpp>
#include <algorithm>
#include <array>
#include <deque>
#include <functional>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <queue>
#include <set>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>

namespace {
// a payload that knows where it lives
struct cnt {
    int v; cnt* self;
    static long live;
    explicit cnt(int x) : v(x), self(this) { ++live; }
    cnt(const cnt& o) : v(o.v), self(this) { o.ok(); ++live; }
    cnt(cnt&& o) noexcept : v(o.v), self(this) { o.ok(); ++live; o.v = -77; }
    cnt& operator=(const cnt& o) { ok(); o.ok(); v = o.v; return *this; }
    cnt& operator=(cnt&& o) noexcept { ok(); o.ok(); const int t = o.v; o.v = -77; v = t; return *this; }
    ~cnt() { ok(); self = nullptr; --live; }
    void ok() const { if (self != this) mc::fail("an element is used where no payload lives", ""); }
    friend bool operator==(const cnt& a, const cnt& b) { a.ok(); b.ok(); return a.v == b.v; } friend bool operator<(const cnt& a, const cnt& b) { a.ok(); b.ok(); return a.v < b.v; }
    friend bool operator!=(const cnt& a, const cnt& b) { return !(a == b); } friend bool operator>(const cnt& a, const cnt& b) { return b < a; } friend bool operator<=(const cnt& a, const cnt& b) { return !(b < a); } friend bool operator>=(const cnt& a, const cnt& b) { return !(a < b); }
};
long cnt::live = 0;
enum class en : signed char { a, b, c, SENTINEL = -9 };
int targets[3] = {0, 1, 2};
const std::string words[3] = {"", "a long word that is not stored inside the string itself 1", "b"};
template<class T> struct P;
template<> struct P<int> { static int make(int v) { return v; } static int read(int x) { return x; } };
template<> struct P<bool> { static bool make(int v) { return v > 0; } static int read(bool x) { return x; } };
template<> struct P<float> { static float make(int v) { return float(v) * 0.5f - 1.f; } static int read(float x) { return int((x + 1.f) * 2); } };
template<> struct P<std::string> { static std::string make(int v) { return words[v]; } static int read(const std::string& s) { for (int i = 0; i < 3; ++i) if (s == words[i]) return i; return -50; } };
template<> struct P<cnt> { static cnt make(int v) { return cnt(v); } static int read(const cnt& x) { x.ok(); return x.v; } };
template<> struct P<en> { static en make(int v) { return en(v); } static int read(en x) { return int(x); } };
template<> struct P<std::unique_ptr<int>> { static std::unique_ptr<int> make(int v) { return std::make_unique<int>(v); } static int read(const std::unique_ptr<int>& p) { return p ? *p : -60; } };
template<> struct P<int&> { static int& make(int v) { return targets[v]; } static int read(int& x) { for (int i = 0; i < 3; ++i) if (&x == &targets[i]) return i; return -70; } };
template<> struct P<std::pair<int, std::string>> { static std::pair<int, std::string> make(int v) { return {v / 2, words[v % 2]}; } static int read(const std::pair<int, std::string>& p) { return p.first * 2 + (p.second == words[1]); } };
template<> struct P<opt::option<int>> { static opt::option<int> make(int v) { if (v) return v; return opt::none; } static int read(const opt::option<int>& o) { return o ? *o : 0; } };
template<> struct P<opt::option<bool>> { static opt::option<bool> make(int v) { if (v) return v == 2; return opt::none; } static int read(const opt::option<bool>& o) { return o ? 1 + *o : 0; } };
template<> struct P<int*> { static int* make(int v) { return &targets[v]; } static int read(int* p) { return int(p - targets); } };
template<class T> constexpr bool copies = std::is_copy_constructible_v<opt::option<T>>;
template<class T> constexpr bool orders = !std::is_same_v<T, std::unique_ptr<int>>;
template<class T> constexpr int kinds = std::is_same_v<T, bool> ? 2 : 3;

template<class T> opt::option<T> mk(int v) { if (v < 0) return opt::none; if (v >= kinds<T>) v = kinds<T> - 1; return opt::option<T>(P<T>::make(v)); }
int norm(int v, int k) { return v >= k ? k - 1 : v; }
template<class T> int rd(const opt::option<T>& o) { return o.has_value() ? P<T>::read(o.get()) : -1; }
template<class T, class C> bool same(const C& c, const std::vector<int>& m) { if (c.size() != m.size()) return false; auto i = m.begin(); for (auto& x : c) if (rd<T>(x) != *i++) return false; return true; }
template<class T, class C> void engaged_count(const C& c, long before) { // payload objects exist exactly for the engaged elements
    if constexpr (std::is_same_v<T, cnt>) { long n = 0; for (auto& x : c) n += rd<T>(x) != -1; MC_CHECK(cnt::live - before == n, "payload objects are lost or leaked"); } (void)before; (void)c;
}
int depth_of(const char* e, int d) { const char* s = std::getenv(e); return s ? std::atoi(s) : d; }
bool by_value(int a, int b) { return a < b; }

// ---- sequence containers: one operation (real and model); false when it does not apply
template<class T, class V> bool step(V& v, std::vector<int>& m, int op, int& kind) {
    using O = opt::option<T>; const int K = kinds<T>; kind = op;
    constexpr bool is_vec = std::is_same_v<V, std::vector<O>>;
    auto at = [&](std::size_t i) { return std::next(v.begin(), std::ptrdiff_t(i)); };
    auto less = [](const O& a, const O& b) { if constexpr (orders<T>) return a < b; else return rd<T>(a) < rd<T>(b); };
    const std::size_t n = m.size(), mid = n / 2;
    switch (op) {
    case 0: v.push_back(opt::none); m.push_back(-1); return true;
    case 1: v.push_back(mk<T>(0)); m.push_back(0); return true;
    case 2: { auto x = mk<T>(1); v.push_back(std::move(x)); m.push_back(1); return true; }
    case 3: { if constexpr (copies<T>) { const auto x = mk<T>(2); v.push_back(x); } else v.push_back(mk<T>(2)); m.push_back(norm(2, K)); return true; }
    case 4: v.insert(v.begin(), mk<T>(1)); m.insert(m.begin(), 1); return true;
    case 5: v.emplace(at(mid), opt::none); m.insert(m.begin() + long(mid), -1); return true;
    case 6: v.emplace(at(mid), P<T>::make(0)); m.insert(m.begin() + long(mid), 0); return true;
    case 7: if (!n) return false; v.erase(v.begin()); m.erase(m.begin()); return true;
    case 8: if (n < 2) return false; v.erase(at(mid)); m.erase(m.begin() + long(mid)); return true;
    case 9: if (!n) return false; v.pop_back(); m.pop_back(); return true;
    case 10: v.resize(n + 2); m.resize(n + 2, -1); return true;
    case 11: if (n < 2) return false; v.resize(n - 2); m.resize(n - 2); return true;
    case 12: if constexpr (is_vec) v.reserve(v.capacity() + 1); return n > 0;
    case 13: if constexpr (is_vec) v.shrink_to_fit(); return n > 0;
    case 14: std::sort(v.begin(), v.end(), less); std::sort(m.begin(), m.end()); return n > 1;
    case 15: std::stable_sort(v.begin(), v.end(), [&](auto& a, auto& b) { return less(b, a); }); std::stable_sort(m.begin(), m.end(), std::greater<>()); return n > 1;
    case 16: std::reverse(v.begin(), v.end()); std::reverse(m.begin(), m.end()); return n > 1;
    case 17: if (n < 2) return false; std::rotate(v.begin(), v.begin() + 1, v.end()); std::rotate(m.begin(), m.begin() + 1, m.end()); return true;
    case 18: if constexpr (orders<T>) { v.erase(std::unique(v.begin(), v.end()), v.end()); m.erase(std::unique(m.begin(), m.end()), m.end()); } return n > 1 && orders<T>;
    case 19: v.erase(std::remove_if(v.begin(), v.end(), [](auto& x) { return !x.has_value(); }), v.end()); m.erase(std::remove(m.begin(), m.end(), -1), m.end()); return n > 0;
    case 20: if (n < 2) return false; std::iter_swap(v.begin(), v.end() - 1); std::iter_swap(m.begin(), m.end() - 1); return true;
    case 21: if (n < 2) return false; v.front() = std::move(v.back()); v.back().reset(); m.front() = m.back(); m.back() = -1; return true;
    case 22: if (n < 2 || !copies<T>) return false; if constexpr (copies<T>) v.front() = v.back(); m.front() = m.back(); return true;
    case 23: if constexpr (copies<T>) { v.assign(2, mk<T>(1)); m.assign(2, 1); } return copies<T>;
    case 24: if (!n || n > 8) return false; if constexpr (copies<T>) { V c(v); v.insert(v.end(), c.begin(), c.end()); } else { V c; for (auto& x : v) c.push_back(mk<T>(rd<T>(x))); v.insert(v.end(), std::make_move_iterator(c.begin()), std::make_move_iterator(c.end())); } { auto c = m; m.insert(m.end(), c.begin(), c.end()); } return true;
    case 25: std::stable_partition(v.begin(), v.end(), [](auto& x) { return x.has_value(); }); std::stable_partition(m.begin(), m.end(), [](int x) { return x >= 0; }); return n > 1;
    case 26: if (!n) return false; v.front().reset(); m.front() = -1; return true;
    case 27: if (n < 2) return false; std::move_backward(v.begin(), v.end() - 1, v.end()); v.front() = mk<T>(0); std::move_backward(m.begin(), m.end() - 1, m.end()); m.front() = 0; return true;
    case 28: { if constexpr (copies<T>) { V c; c = v; MC_CHECK(same<T>(c, m), "copied container"); v.swap(c); v = std::move(c); } else { V c(std::move(v)); v = std::move(c); } return n > 0; }
    case 29: if (n < 2) return false; v.front().swap(v.back()); std::swap(m.front(), m.back()); return true;
    case 30: if (!n) return false; { O x = std::exchange(v.front(), mk<T>(1)); MC_CHECK(rd<T>(x) == m.front(), "exchange"); } m.front() = 1; return true;
    case 31: if (!n) return false; { O x = v.back().take(); MC_CHECK(rd<T>(x) == m.back(), "take"); } m.back() = -1; return true;
    case 32: if (n < 2) return false; { O x = std::move(v.back()); v.pop_back(); v.insert(v.begin(), std::move(x)); } std::rotate(m.begin(), m.end() - 1, m.end()); return true;
    case 33: if constexpr (orders<T>) { const bool a = std::next_permutation(v.begin(), v.end()), b = std::next_permutation(m.begin(), m.end()); MC_CHECK(a == b, "next_permutation"); } return n > 1 && orders<T>;
    case 34: if constexpr (orders<T>) { std::make_heap(v.begin(), v.end()); std::sort_heap(v.begin(), v.end()); std::sort(m.begin(), m.end()); } return n > 1 && orders<T>;
    case 35: if constexpr (copies<T>) { std::fill(v.begin(), v.end(), mk<T>(0)); std::fill(m.begin(), m.end(), 0); } return n > 0 && copies<T>;
    default: return false;
    }
}
const int n_ops = 36;
template<class T, class V> void look(const V& v, const std::vector<int>& m) {
    MC_CHECK(same<T>(v, m), "contents differ");
    if constexpr (orders<T>) for (int k = -1; k < kinds<T>; ++k) {
        const auto x = mk<T>(k);
        MC_CHECK(std::find(v.begin(), v.end(), x) - v.begin() == std::find(m.begin(), m.end(), k) - m.begin() && std::count(v.begin(), v.end(), x) == std::count(m.begin(), m.end(), k), "find or count");
    }
    MC_CHECK(std::count(v.begin(), v.end(), opt::none) == std::count(m.begin(), m.end(), -1), "count of none");
}
template<class T, class V> void sequences(const char* name, int depth) {
    mc::set_ctx(name);
    const long before = cnt::live; unsigned long long total = 0;
    int ops[8] = {}; std::set<std::vector<int>> seen;
    const auto explore = [&](auto&& self, int d) -> void { // replays every prefix from the start, so that move-only payloads take part
        for (int op = 0; op < n_ops; ++op) {
            ops[d] = op;
            bool applied = true;
            {
                V v; std::vector<int> m; mc::clear();
                for (int i = 0; i <= d && applied; ++i) { int k; mc::push("operation", ops[i]); applied = step<T>(v, m, ops[i], k); mc::stats.transitions += applied; }
                if (applied) { look<T>(v, m); engaged_count<T>(v, before); ++mc::stats.traces; ++total; seen.insert(m); }
            }
            if constexpr (std::is_same_v<T, cnt>) MC_CHECK(cnt::live == before, "payloads remain after the container is gone");
            if (applied && d + 1 < depth) self(self, d + 1);
        }
    };
    explore(explore, 0);
    mc::stats.states += seen.size();
    mc::sample(std::string(name) + ": " + std::to_string(total) + " operation sequences, " + std::to_string(seen.size()) + " distinct contents");
}

// ---- associative containers
template<class T, class S> void sets(const char* name, int depth) {
    mc::set_ctx(name); constexpr int K = kinds<T>, N = 5 * (K + 1) + 5;
    unsigned long long total = 0; std::set<std::set<int>> seen; const long before = cnt::live;
    int ops[8] = {};
    auto run = [&](int n) {
        bool applied = true;
        S s; std::set<int> m; mc::clear();
        for (int i = 0; i < n && applied; ++i) {
            const int op = ops[i]; mc::push("operation", op);
            if (op < 5 * (K + 1)) {
                const int k = op / 5 - 1; const bool had = m.count(k); auto x = mk<T>(k);
                switch (op % 5) {
                case 0: { auto r = s.insert(x); MC_CHECK(r.second == !had && rd<T>(*r.first) == k, "insert"); m.insert(k); break; }
                case 1: { auto r = s.insert(std::move(x)); MC_CHECK(r.second == !had && rd<T>(*r.first) == k, "insert of an rvalue"); m.insert(k); break; }
                case 2: { if (k < 0) s.emplace(opt::none); else s.emplace(P<T>::make(k)); m.insert(k); break; }
                case 3: MC_CHECK(s.erase(x) == std::size_t(had), "erase"); m.erase(k); break;
                default: { auto h = s.extract(x); MC_CHECK(h.empty() != had && (!had || rd<T>(h.value()) == k), "extract"); m.erase(k); if (had) { const int k2 = k + 1 < K ? k + 1 : -1; h.value() = mk<T>(k2); auto r = s.insert(std::move(h)); MC_CHECK(r.inserted == !m.count(k2), "insert of a node"); m.insert(k2); } else applied = false; break; }
                }
            } else switch (op - 5 * (K + 1)) {
                case 0: if (m.empty()) applied = false; s.clear(); m.clear(); break;
                case 1: { S c(s); MC_CHECK(c == s && c.size() == m.size(), "copied set"); S d; d = c; s.swap(d); break; }
                case 2: { S c(std::move(s)); s = std::move(c); break; }
                case 3: { S o; o.insert(mk<T>(-1)); o.insert(mk<T>(1)); s.merge(o); m.insert(-1); m.insert(1); break; }
                default: if (m.empty()) applied = false; else { const int k = rd<T>(*s.begin()); s.erase(s.begin()); m.erase(k); } break;
            }
            if (!applied) return false;
            ++mc::stats.transitions;
        }
        std::vector<int> c; for (auto& x : s) c.push_back(rd<T>(x));
        if constexpr (std::is_same_v<S, std::set<opt::option<T>>>) MC_CHECK(std::is_sorted(c.begin(), c.end()), "order of the elements");
        std::sort(c.begin(), c.end()); MC_CHECK(c == std::vector<int>(m.begin(), m.end()), "contents differ");
        for (int k = -1; k < K; ++k) { const auto x = mk<T>(k); auto f = s.find(x); MC_CHECK(s.count(x) == m.count(k) && (f != s.end()) == bool(m.count(k)) && (f == s.end() || rd<T>(*f) == k), "find or count");
            if constexpr (std::is_same_v<S, std::set<opt::option<T>>>) { auto l = s.lower_bound(x); auto ml = m.lower_bound(k); MC_CHECK((l == s.end()) == (ml == m.end()) && (l == s.end() || rd<T>(*l) == *ml), "lower_bound"); } }
        engaged_count<T>(s, before);
        seen.insert(m); ++total; ++mc::stats.traces; return true;
    };
    const auto explore = [&](auto&& self, int d) -> void {
        for (int op = 0; op < N; ++op) { ops[d] = op; const bool a = run(d + 1); if constexpr (std::is_same_v<T, cnt>) MC_CHECK(cnt::live == before, "payloads remain after the container is gone"); if (a && d + 1 < depth) self(self, d + 1); }
    };
    explore(explore, 0);
    mc::stats.states += seen.size();
    mc::sample(std::string(name) + ": " + std::to_string(total) + " operation sequences, " + std::to_string(seen.size()) + " distinct contents");
}
template<class T, class M> void maps(const char* name, int depth) { // option as key and as mapped value
    mc::set_ctx(name); constexpr int K = kinds<T>, N = 4 * (K + 1) + 2;
    unsigned long long total = 0; int ops[8] = {}; std::set<std::map<int, int>> seen; const long before = cnt::live;
    auto run = [&](int n) {
        bool applied = true;
        M s; std::map<int, int> m; mc::clear();
        for (int i = 0; i < n; ++i) {
            const int op = ops[i]; mc::push("operation", op); ++mc::stats.transitions;
            if (op < 4 * (K + 1)) {
                const int k = op / 4 - 1, w = i % K; auto x = mk<T>(k);
                switch (op % 4) {
                case 0: s[x] = mk<T>(w); m[k] = w; break;
                case 1: { auto r = s.try_emplace(std::move(x)); auto q = m.try_emplace(k, -1); MC_CHECK(r.second == q.second && rd<T>(r.first->second) == q.first->second, "try_emplace"); break; }
                case 2: { auto r = s.insert_or_assign(x, opt::none); MC_CHECK(rd<T>(r.first->second) == -1, "insert_or_assign"); m[k] = -1; break; }
                default: MC_CHECK(s.erase(x) == m.erase(k), "erase"); break;
                }
            } else if (op == 4 * (K + 1)) { M c(s); MC_CHECK(c == s, "copied map"); s = std::move(c); }
            else { if (m.empty()) { applied = false; break; } for (auto& e : s) { e.second = e.first; } for (auto& e : m) e.second = e.first; }
        }
        if (!applied) return false;
        std::map<int, int> c; for (auto& e : s) c[rd<T>(e.first)] = rd<T>(e.second);
        MC_CHECK(c == m && s.size() == m.size(), "contents differ");
        for (int k = -1; k < K; ++k) { auto f = s.find(mk<T>(k)); auto g = m.find(k); MC_CHECK((f != s.end()) == (g != m.end()), "find"); if (g != m.end()) MC_CHECK(rd<T>(f->second) == g->second, "value found"); }
        seen.insert(m); ++total; ++mc::stats.traces; return true;
    };
    const auto explore = [&](auto&& self, int d) -> void { for (int op = 0; op < N; ++op) { ops[d] = op; const bool a = run(d + 1); if constexpr (std::is_same_v<T, cnt>) MC_CHECK(cnt::live == before, "payloads remain after the container is gone"); if (a && d + 1 < depth) self(self, d + 1); } };
    explore(explore, 0);
    mc::stats.states += seen.size();
    mc::sample(std::string(name) + ": " + std::to_string(total) + " operation sequences, " + std::to_string(seen.size()) + " distinct contents");
}

// ---- algorithms over every sequence of elements
template<class T> void algorithms(const char* name, int len) {
    using O = opt::option<T>; mc::set_ctx(name); constexpr int K = kinds<T>; const int B = K + 1;
    for (int n = 0; n <= len; ++n) {
        long total = 1; for (int i = 0; i < n; ++i) total *= B;
        for (long code = 0; code < total; ++code) {
            std::vector<int> m; long c = code; for (int i = 0; i < n; ++i) { m.push_back(int(c % B) - 1); c /= B; }
            mc::clear(); mc::push("length", n); mc::push("elements", code); ++mc::stats.states; ++mc::stats.traces;
            std::vector<O> v; for (int x : m) v.push_back(mk<T>(x));
            auto sorted = m; std::sort(sorted.begin(), sorted.end());
            auto check = [&](const char* what, const std::vector<O>& w, const std::vector<int>& want) { mc::stats.transitions += 1; if (!same<T>(w, want)) { mc::scope s(what); MC_CHECK(false, "an algorithm gives another result"); } };
            { auto w = v; std::sort(w.begin(), w.end()); check("sort", w, sorted);
              for (int k = -1; k < K; ++k) { const auto x = mk<T>(k); MC_CHECK(std::lower_bound(w.begin(), w.end(), x) - w.begin() == std::lower_bound(sorted.begin(), sorted.end(), k) - sorted.begin() && std::upper_bound(w.begin(), w.end(), x) - w.begin() == std::upper_bound(sorted.begin(), sorted.end(), k) - sorted.begin() && std::binary_search(w.begin(), w.end(), x) == std::binary_search(sorted.begin(), sorted.end(), k), "binary search"); }
              if (std::includes(w.begin(), w.end(), w.begin(), w.end()) != true) MC_CHECK(false, "includes"); }
            { auto w = v; std::sort(w.begin(), w.end(), std::greater<>()); auto s = sorted; std::reverse(s.begin(), s.end()); check("sort, descending", w, s); }
            { auto w = v; std::partial_sort(w.begin(), w.begin() + n / 2, w.end()); auto s = m; std::partial_sort(s.begin(), s.begin() + n / 2, s.end()); for (int i = 0; i < n / 2; ++i) MC_CHECK(rd<T>(w[std::size_t(i)]) == s[std::size_t(i)], "partial_sort"); }
            if (n) { auto w = v; std::nth_element(w.begin(), w.begin() + n / 2, w.end()); MC_CHECK(rd<T>(w[std::size_t(n / 2)]) == sorted[std::size_t(n / 2)], "nth_element");
                auto mm = std::minmax_element(v.begin(), v.end()); auto im = std::minmax_element(m.begin(), m.end()); MC_CHECK(mm.first - v.begin() == im.first - m.begin() && mm.second - v.begin() == im.second - m.begin(), "minmax_element"); }
            { std::vector<std::pair<O, int>> w; std::vector<std::pair<int, int>> s; for (int i = 0; i < n; ++i) { w.emplace_back(v[std::size_t(i)], i); s.emplace_back(m[std::size_t(i)], i); } std::stable_sort(w.begin(), w.end(), [](auto& a, auto& b) { return a.first < b.first; }); std::stable_sort(s.begin(), s.end(), [](auto& a, auto& b) { return a.first < b.first; }); for (int i = 0; i < n; ++i) MC_CHECK(w[std::size_t(i)].second == s[std::size_t(i)].second && rd<T>(w[std::size_t(i)].first) == s[std::size_t(i)].first, "stable_sort"); auto w2 = w; std::sort(w2.begin(), w2.end()); std::sort(s.begin(), s.end()); for (int i = 0; i < n; ++i) MC_CHECK(w2[std::size_t(i)].second == s[std::size_t(i)].second, "sort of pairs"); }
            { std::vector<std::pair<O, int>> w; std::vector<std::pair<int, int>> s; for (int i = 0; i < n; ++i) { w.emplace_back(v[std::size_t(i)], i); s.emplace_back(m[std::size_t(i)], i); } // every relation as an ordering, element numbers tell
                std::stable_sort(w.begin(), w.end(), [](auto& a, auto& b) { return a.first > b.first; }); std::stable_sort(s.begin(), s.end(), [](auto& a, auto& b) { return a.first > b.first; });
                for (int i = 0; i < n; ++i) MC_CHECK(w[std::size_t(i)].second == s[std::size_t(i)].second, "stable_sort, descending");
                std::stable_sort(w.begin(), w.end(), [](auto& a, auto& b) { return !(a.first >= b.first); }); std::stable_sort(s.begin(), s.end(), [](auto& a, auto& b) { return a.first < b.first; });
                for (int i = 0; i < n; ++i) MC_CHECK(w[std::size_t(i)].second == s[std::size_t(i)].second, "stable_sort by not-greater-or-equal");
                std::stable_sort(w.begin(), w.end(), [](auto& a, auto& b) { return !(a.first <= b.first); }); std::stable_sort(s.begin(), s.end(), [](auto& a, auto& b) { return a.first > b.first; });
                for (int i = 0; i < n; ++i) MC_CHECK(w[std::size_t(i)].second == s[std::size_t(i)].second, "stable_sort by not-less-or-equal");
                std::stable_sort(w.begin(), w.end(), std::greater<>()); std::stable_sort(s.begin(), s.end(), std::greater<>()); for (int i = 0; i < n; ++i) MC_CHECK(w[std::size_t(i)].second == s[std::size_t(i)].second, "pairs, descending"); }
            { std::set<O, std::greater<>> s(v.begin(), v.end()); std::set<int, std::greater<>> q(m.begin(), m.end()); MC_CHECK(same<T>(s, std::vector<int>(q.begin(), q.end())), "set in descending order");
                std::multimap<O, int, std::greater<O>> mm; std::multimap<int, int, std::greater<>> im; for (int i = 0; i < n; ++i) { mm.emplace(v[std::size_t(i)], i); im.emplace(m[std::size_t(i)], i); } auto j = im.begin(); for (auto& e : mm) { MC_CHECK(rd<T>(e.first) == j->first && e.second == j->second, "multimap in descending order"); ++j; }
                std::priority_queue<O, std::vector<O>, std::greater<O>> pq(std::greater<O>(), v); for (int i = 0; i < n; ++i, pq.pop()) MC_CHECK(rd<T>(pq.top()) == sorted[std::size_t(i)], "priority_queue, smallest first"); }
            for (int k = -1; k < K; ++k) { const auto x = mk<T>(k); // relations with an element, and with no value, as predicates
                MC_CHECK(std::count_if(v.begin(), v.end(), [&](auto& y) { return y < x; }) == std::count_if(m.begin(), m.end(), [&](int y) { return y < k; }) && std::count_if(v.begin(), v.end(), [&](auto& y) { return y > x; }) == std::count_if(m.begin(), m.end(), [&](int y) { return y > k; })
                    && std::count_if(v.begin(), v.end(), [&](auto& y) { return y <= x; }) == std::count_if(m.begin(), m.end(), [&](int y) { return y <= k; }) && std::count_if(v.begin(), v.end(), [&](auto& y) { return y >= x; }) == std::count_if(m.begin(), m.end(), [&](int y) { return y >= k; })
                    && std::count_if(v.begin(), v.end(), [&](auto& y) { return y != x; }) == std::count_if(m.begin(), m.end(), [&](int y) { return y != k; }), "count_if with a relation"); }
            MC_CHECK(std::adjacent_find(v.begin(), v.end(), std::greater<>()) - v.begin() == std::adjacent_find(m.begin(), m.end(), std::greater<>()) - m.begin() && std::adjacent_find(v.begin(), v.end(), std::less_equal<>()) - v.begin() == std::adjacent_find(m.begin(), m.end(), std::less_equal<>()) - m.begin()
                && std::adjacent_find(v.begin(), v.end(), std::greater_equal<>()) - v.begin() == std::adjacent_find(m.begin(), m.end(), std::greater_equal<>()) - m.begin() && std::adjacent_find(v.begin(), v.end(), std::not_equal_to<>()) - v.begin() == std::adjacent_find(m.begin(), m.end(), std::not_equal_to<>()) - m.begin(), "adjacent_find with a relation");
            { std::priority_queue<O> q; for (auto& x : v) q.push(x); for (int i = n; i-- > 0; q.pop()) MC_CHECK(rd<T>(q.top()) == sorted[std::size_t(i)], "priority_queue"); }
            { std::multiset<O> s(v.begin(), v.end()); std::vector<int> got; for (auto& x : s) got.push_back(rd<T>(x)); MC_CHECK(got == sorted, "multiset"); for (int k = -1; k < K; ++k) MC_CHECK(long(s.count(mk<T>(k))) == std::count(m.begin(), m.end(), k), "multiset count"); }
            { std::list<O> l(v.begin(), v.end()); l.sort(); std::vector<O> w(l.begin(), l.end()); check("list sort", w, sorted); l.unique(); auto s = sorted; s.erase(std::unique(s.begin(), s.end()), s.end()); w.assign(l.begin(), l.end()); check("list unique", w, s); l.remove(mk<T>(0)); s.erase(std::remove(s.begin(), s.end(), 0), s.end()); w.assign(l.begin(), l.end()); check("list remove", w, s); }
            { auto w = v; const bool a = std::next_permutation(w.begin(), w.end()); auto s = m; const bool b = std::next_permutation(s.begin(), s.end()); MC_CHECK(a == b, "next_permutation"); check("next_permutation", w, s); const bool e = std::prev_permutation(w.begin(), w.end()); MC_CHECK(e == std::prev_permutation(s.begin(), s.end()), "prev_permutation"); check("prev_permutation", w, s); }
            if (n == 2) { using A = std::array<O, 2>; A x{{v[0], v[1]}}, y{{v[1], v[0]}}; std::array<int, 2> ix{{m[0], m[1]}}, iy{{m[1], m[0]}}; MC_CHECK((x == y) == (ix == iy) && (x < y) == (ix < iy) && (x >= y) == (ix >= iy), "comparison of arrays of options"); std::swap(x, y); MC_CHECK(rd<T>(x[0]) == m[1] && rd<T>(x[1]) == m[0] && rd<T>(y[0]) == m[0], "swap of arrays of options");
                std::tuple<O, O> tx{v[0], v[1]}, ty{v[1], v[0]}; MC_CHECK((tx == ty) == (ix == iy) && (tx < ty) == (ix < iy), "comparison of tuples of options"); std::tie(v[0], v[1]) = std::make_tuple(v[1], v[0]); MC_CHECK(rd<T>(v[0]) == m[1] && rd<T>(v[1]) == m[0], "tie"); std::swap(v[0], v[1]); MC_CHECK(rd<T>(v[0]) == m[0] && rd<T>(v[1]) == m[1], "std::swap"); std::optional<O> so(v[0]); MC_CHECK(so.has_value() && rd<T>(*so) == m[0], "std::optional of an option"); so = v[1]; MC_CHECK(so.has_value() && rd<T>(*so) == m[1], "std::optional of an option");
                std::variant<int, O> va(std::in_place_index<1>, v[0]); MC_CHECK(va.index() == 1 && rd<T>(std::get<1>(va)) == m[0], "variant of an option"); va = 5; va.template emplace<1>(v[1]); MC_CHECK(rd<T>(std::get<1>(va)) == m[1], "variant of an option");
                opt::option<std::vector<O>> ov(v); opt::option<std::vector<O>> oc = ov; oc->push_back(opt::none); MC_CHECK(same<T>(*ov, m) && oc->size() == 3 && same<T>(ov.take().value_or(std::vector<O>{}), m), "option of a container of options"); }
            if (n >= 1) { std::vector<O> w(v.begin(), v.begin() + n / 2), x(v.begin() + n / 2, v.end()); std::vector<int> iw(m.begin(), m.begin() + n / 2), ix(m.begin() + n / 2, m.end()); MC_CHECK((w < x) == (iw < ix) && (w == x) == (iw == ix) && (w >= x) == (iw >= ix), "comparison of vectors of options");
                std::sort(w.begin(), w.end()); std::sort(x.begin(), x.end()); std::sort(iw.begin(), iw.end()); std::sort(ix.begin(), ix.end()); std::vector<O> r; std::vector<int> ir; std::merge(w.begin(), w.end(), x.begin(), x.end(), std::back_inserter(r)); std::merge(iw.begin(), iw.end(), ix.begin(), ix.end(), std::back_inserter(ir)); check("merge", r, ir); r.clear(); ir.clear(); std::set_symmetric_difference(w.begin(), w.end(), x.begin(), x.end(), std::back_inserter(r)); std::set_symmetric_difference(iw.begin(), iw.end(), ix.begin(), ix.end(), std::back_inserter(ir)); check("set_symmetric_difference", r, ir); r.clear(); ir.clear(); std::set_union(w.begin(), w.end(), x.begin(), x.end(), std::back_inserter(r)); std::set_union(iw.begin(), iw.end(), ix.begin(), ix.end(), std::back_inserter(ir)); check("set_union", r, ir); }
        }
    }
    mc::sample(std::string(name) + ": every sequence of up to " + std::to_string(len) + " elements");
}
template<class T> void vec(const char* n, int d) { sequences<T, std::vector<opt::option<T>>>(n, d); }
template<class T> void deq(const char* n, int d) { sequences<T, std::deque<opt::option<T>>>(n, d); }
}
template<> struct std::hash<cnt> { std::size_t operator()(const cnt& x) const { x.ok(); return std::size_t(x.v) * 31 % 2; } }; // collisions on purpose
template<> struct std::hash<std::pair<int, std::string>> { std::size_t operator()(const std::pair<int, std::string>& x) const { return std::hash<std::string>()(x.second); } };
int main() {
    mc::init();
    const int d = depth_of("MC_DEPTH", 3); (void)d;
    using ps = std::pair<int, std::string>;
#if PART == 0
    vec<int>("vector<option<int>>", d); vec<std::string>("vector<option<string>>", d); vec<float>("vector<option<float>>", d);
#elif PART == 1
    vec<cnt>("vector<option<tracked>>", d); vec<std::unique_ptr<int>>("vector<option<unique_ptr>>", d); vec<bool>("vector<option<bool>>", d);
#elif PART == 2
    vec<int&>("vector<option<int&>>", d); vec<ps>("vector<option<pair>>", d); vec<en>("vector<option<enum>>", d);
#elif PART == 3
    vec<opt::option<int>>("vector<option<option<int>>>", d); vec<opt::option<bool>>("vector<option<option<bool>>>", d); vec<int*>("vector<option<int*>>", d);
#elif PART == 4
    deq<cnt>("deque<option<tracked>>", d); deq<std::string>("deque<option<string>>", d); deq<opt::option<bool>>("deque<option<option<bool>>>", d);
#elif PART == 5
    sets<int, std::set<opt::option<int>>>("set<option<int>>", d); sets<cnt, std::set<opt::option<cnt>>>("set<option<tracked>>", d); sets<std::string, std::set<opt::option<std::string>>>("set<option<string>>", d); sets<opt::option<int>, std::set<opt::option<opt::option<int>>>>("set<option<option<int>>>", d); sets<bool, std::set<opt::option<bool>>>("set<option<bool>>", d); sets<ps, std::set<opt::option<ps>>>("set<option<pair>>", d); sets<en, std::set<opt::option<en>>>("set<option<enum>>", d);
#elif PART == 6
    sets<int, std::unordered_set<opt::option<int>>>("unordered_set<option<int>>", d); sets<cnt, std::unordered_set<opt::option<cnt>>>("unordered_set<option<tracked>>", d); sets<std::string, std::unordered_set<opt::option<std::string>>>("unordered_set<option<string>>", d); sets<opt::option<int>, std::unordered_set<opt::option<opt::option<int>>>>("unordered_set<option<option<int>>>", d); sets<float, std::unordered_set<opt::option<float>>>("unordered_set<option<float>>", d); sets<int*, std::unordered_set<opt::option<int*>>>("unordered_set<option<int*>>", d); sets<ps, std::unordered_set<opt::option<ps>>>("unordered_set<option<pair>>", d);
#elif PART == 7
    maps<int, std::map<opt::option<int>, opt::option<int>>>("map<option<int>,option<int>>", d); maps<cnt, std::map<opt::option<cnt>, opt::option<cnt>>>("map<option<tracked>,...>", d); maps<std::string, std::map<opt::option<std::string>, opt::option<std::string>>>("map<option<string>,...>", d); maps<bool, std::unordered_map<opt::option<bool>, opt::option<bool>>>("unordered_map<option<bool>,...>", d); maps<std::string, std::unordered_map<opt::option<std::string>, opt::option<std::string>>>("unordered_map<option<string>,...>", d); maps<opt::option<int>, std::unordered_map<opt::option<opt::option<int>>, opt::option<opt::option<int>>>>("unordered_map<option<option<int>>,...>", d);
#elif PART == 8
    const int n = mc::thorough() ? 6 : 5;
    algorithms<int>("algorithms, int", n + 1); algorithms<cnt>("algorithms, tracked", n); algorithms<std::string>("algorithms, string", n); algorithms<bool>("algorithms, bool", n + 1); 
#else
    const int n = mc::thorough() ? 6 : 5;
    algorithms<float>("algorithms, float", n); algorithms<opt::option<int>>("algorithms, option<int>", n); algorithms<ps>("algorithms, pair", n); algorithms<en>("algorithms, enum", n); algorithms<int*>("algorithms, int*", n);
#endif
    return mc::finish();
}
