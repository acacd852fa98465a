// C01/C02/C03: operation sequences over an option<T> and an option<U> of different payload types T and U
// (converting construction and assignment, swap of different types, |=, take, map ...), against a two-number model.
// -DTRK_THROWING=true: each throw point of each operation throws.
#include "tracked.hpp"

namespace mix {
using C = trk::core<tt::X>;
using seq::NONE; using seq::MOVED;
constexpr int K = 7;
template<int I> struct P;
// what the kinds share: conversions from every other kind, and a swap between kinds
template<class D, class S> constexpr bool other_v = false;
template<int A, int B> constexpr bool other_v<P<A>, P<B>> = A != B;
template<class D, class S> using other = std::enable_if_t<other_v<D, S>, int>;
#define MIX_TRACKED(I) \
    using Self = P<I>; using C::C; P() = delete; P(const P&) = default; P(P&&) = default; P& operator=(const P&) = default; P& operator=(P&&) = default; \
    template<class S, other<Self, S> = 0> P(const S& s) : C(s.num()) {} \
    template<class S, other<Self, S> = 0> P(S&& s) : C(s.num()) { s.gone(); } \
    template<class S, other<Self, S> = 0> P& operator=(const S& s) { trk::used(this, "assignment to a dead object"); const int x = s.num(); tt::pt(); v = x; return *this; } \
    template<class S, other<Self, S> = 0> P& operator=(S&& s) { trk::used(this, "assignment to a dead object"); const int x = s.num(); tt::pt(); v = x; s.gone(); return *this; } \
    int num() const { trk::used(static_cast<const C*>(this), "value read from a dead object"); return v; } void gone() { v = 9; } void set(int x) { trk::used(static_cast<const C*>(this), "swap of a dead object"); v = x; }
#define MIX_TRIVIAL(I) \
    using Self = P<I>; int v; P(int i) noexcept(!tt::X) : v(i) { tt::pt(); } P(const P& o) noexcept(!tt::X) : v(o.v) { tt::pt(); } P(P&& o) noexcept(!tt::X) : v(o.v) { tt::pt(); o.v = 9; } \
    P& operator=(const P& o) noexcept(!tt::X) { tt::pt(); v = o.v; return *this; } P& operator=(P&& o) noexcept(!tt::X) { tt::pt(); v = o.v; if (this != &o) o.v = 9; return *this; } \
    template<class S, other<Self, S> = 0> P(const S& s) : v(s.num()) { tt::pt(); } \
    template<class S, other<Self, S> = 0> P(S&& s) : v(s.num()) { tt::pt(); s.gone(); } \
    template<class S, other<Self, S> = 0> P& operator=(const S& s) { const int x = s.num(); tt::pt(); v = x; return *this; } \
    template<class S, other<Self, S> = 0> P& operator=(S&& s) { const int x = s.num(); tt::pt(); v = x; s.gone(); return *this; } \
    int num() const { return v; } void gone() { v = 9; } void set(int x) { v = x; }
template<> struct P<0> : C { MIX_TRACKED(0) };
template<> struct P<1> : C { MIX_TRACKED(1) };                             // traits with levels
template<> struct P<2> : C { MIX_TRACKED(2) std::uint32_t PADDING = 0; };  // aligned like the other kinds, larger
template<> struct P<3> : C { MIX_TRACKED(3) char pad[40]; };               // much larger, flag
template<> struct P<4> { MIX_TRIVIAL(4) };
template<> struct P<5> { MIX_TRIVIAL(5) };                                 // traits with levels
template<> struct P<6> { virtual ~P() = default; MIX_TRIVIAL(6) };         // polymorphic
template<int A, int B, class = std::enable_if_t<A != B>> void swap(P<A>& a, P<B>& b) noexcept(!tt::X) { tt::pt(); const int x = a.num(); a.set(b.num()); b.set(x); }
constexpr int per(int kind) { return kind < 4; }
inline const char* const kind_name[K] = {"tracked", "tracked with traits", "tracked with padding", "tracked, large", "trivially destructible", "trivially destructible with traits", "polymorphic"};
}
template<> struct opt::option_traits<mix::P<1>> : tt::int_traits<mix::P<1>, -100, 2> {};
template<> struct opt::option_traits<mix::P<5>> : tt::int_traits<mix::P<5>, -100, 2> {};
template<> struct opt::option_traits<mix::P<2>> { // the padding member distinguishes the levels
    static constexpr std::uintmax_t max_level = 2;
    static std::uintmax_t get_level(const mix::P<2>* p) noexcept { return std::uintmax_t(p->PADDING) - 1 < 2 ? std::uintmax_t(p->PADDING) - 1 : std::uintmax_t(-1); }
    static void set_level(mix::P<2>* p, std::uintmax_t l) noexcept { if (trk::is_live(p)) mc::fail("empty state written over a live object", ""); ::new(static_cast<void*>(&p->PADDING)) std::uint32_t(std::uint32_t(l + 1)); }
};

namespace mix {
template<int A, int B> struct pair {
    using T = P<A>; using U = P<B>;
    using OT = opt::option<T>; using OU = opt::option<U>;
    struct cell { unsigned char pre[16]; alignas(16) unsigned char bytes[(sizeof(OT) > sizeof(OU) ? sizeof(OT) : sizeof(OU))]; unsigned char post[16]; };
    struct world {
        cell ca, cb; OT* pa; OU* pb; int ma, mb; bool live = false; int emplacing = 0;
        OT& a() { return *pa; } OU& b() { return *pb; }
        template<class F> void renew(int m, F f) { live = false; pa->~OT(); f(static_cast<void*>(pa)); live = true; ma = m; }
    };
    struct op { std::string name; bool weak; std::function<void(world&)> run; };
    static int moved(int m) { return m == NONE ? NONE : MOVED; }
    template<class O> static int read(const O& o) { if (!o.has_value()) return NONE; const int v = o->num(); return v == 1 || v == 2 ? v - 1 : MOVED; }

    static std::vector<op> ops() {
        std::vector<op> v;
        auto add = [&](std::string n, bool weak, auto f) { v.push_back({std::move(n), weak, f}); };
        add("a=none", false, [](world& w) { w.a() = opt::none; w.ma = NONE; });
        add("b.reset", false, [](world& w) { w.b().reset(); w.mb = NONE; });
        for (int i = 0; i < 2; ++i) {
            const std::string n = "#" + std::to_string(i);
            add("a.emplace" + n, true, [i](world& w) { w.emplacing = 1; w.a().emplace(i + 1); w.ma = i; });
            add("b.emplace" + n, true, [i](world& w) { w.emplacing = 2; w.b().emplace(i + 1); w.mb = i; });
            add("a.emplace(U)" + n, true, [i](world& w) { U u(i + 1); w.emplacing = 1; w.a().emplace(std::move(u)); w.ma = i; });
            add("a.try_emplace(U)" + n, false, [i](world& w) { const U u(i + 1); w.a().try_emplace(u); if (w.ma == NONE) w.ma = i; });
            add("a=U" + n, false, [i](world& w) { OT& r = (w.a() = U(i + 1)); w.ma = i; OP_CHECK(&r == &w.a(), "assignment returns *this"); });
            add("a=const U&" + n, false, [i](world& w) { const U u(i + 1); w.a() = u; w.ma = i; OP_CHECK(u.num() == i + 1, "source of a copy changed"); });
            add("b=T" + n, false, [i](world& w) { w.b() = T(i + 1); w.mb = i; });
            add("a|=U" + n, false, [i](world& w) { w.a() |= U(i + 1); if (w.ma == NONE) w.ma = i; });
            add("rebuild a(U)" + n, true, [i](world& w) { U u(i + 1); w.renew(i, [&](void* p) { ::new(p) OT(std::move(u)); }); });
            add("rebuild a(in_place,U)" + n, true, [i](world& w) { const U u(i + 1); w.renew(i, [&](void* p) { ::new(p) OT(std::in_place, u); }); });
            add("a=a.value_or(U)" + n, false, [i](world& w) { w.a() = w.a().value_or(U(i + 1)); if (w.ma == NONE) w.ma = i; });
            add("a=a.value_or_construct(U)" + n, false, [i](world& w) { w.a() = w.a().value_or_construct(U(i + 1)); if (w.ma == NONE) w.ma = i; });
        }
        add("a=b", false, [](world& w) { OT& r = (w.a() = w.b()); w.ma = w.mb; OP_CHECK(&r == &w.a(), "assignment returns *this"); });
        add("a=const b", false, [](world& w) { w.a() = std::as_const(w.b()); w.ma = w.mb; });
        add("b=a", false, [](world& w) { w.b() = w.a(); w.mb = w.ma; });
        add("a=move(b)", false, [](world& w) { w.a() = std::move(w.b()); w.ma = w.mb; w.mb = moved(w.mb); });
        add("b=move(a)", false, [](world& w) { w.b() = std::move(w.a()); w.mb = w.ma; w.ma = moved(w.ma); });
        add("a=*b", false, [](world& w) { if (w.mb != NONE) { w.a() = *w.b(); w.ma = w.mb; } });
        add("a=move(*b)", false, [](world& w) { if (w.mb != NONE) { w.a() = *std::move(w.b()); w.ma = w.mb; w.mb = MOVED; } });
        add("a=b.take", true, [](world& w) { w.a() = w.b().take(); w.ma = w.mb; w.mb = NONE; });
        add("a=b.take_if", true, [](world& w) { w.a() = w.b().take_if([](const U& u) { return u.num() == 1; }); const bool t = w.mb == 0; w.ma = t ? 0 : NONE; if (t) w.mb = NONE; });
        add("rebuild a(b)", true, [](world& w) { w.renew(w.mb, [&](void* p) { ::new(p) OT(std::as_const(w.b())); }); });
        add("rebuild a(move b)", true, [](world& w) { w.renew(w.mb, [&](void* p) { ::new(p) OT(std::move(w.b())); }); w.mb = moved(w.mb); });
        add("a|=b", false, [](world& w) { w.a() |= w.b(); if (w.ma == NONE) w.ma = w.mb; });
        add("a|=move(b)", false, [](world& w) { const bool t = w.ma == NONE; w.a() |= std::move(w.b()); if (t) { w.ma = w.mb; w.mb = moved(w.mb); } });
        add("a=b.map(T)", false, [](world& w) { w.a() = w.b().map([](const U& u) -> T { return T(u); }); w.ma = w.mb; });
        add("a=move(b).map(T)", false, [](world& w) { w.a() = std::move(w.b()).map([](U&& u) -> T { return T(std::move(u)); }); w.ma = w.mb; w.mb = moved(w.mb); });
        add("a=a&(b)->T", false, [](world& w) { OU t = w.a() & w.b(); w.a() = std::move(t); w.ma = w.ma == NONE ? NONE : w.mb; });
        add("a=option_cast(b)", false, [](world& w) { w.a() = opt::option_cast<T>(w.b()); w.ma = w.mb; });
        add("a.swap(b)", false, [](world& w) { w.a().swap(w.b()); std::swap(w.ma, w.mb); });
        add("b.swap(a)", false, [](world& w) { w.b().swap(w.a()); std::swap(w.ma, w.mb); });
        add("swap(a,b)", false, [](world& w) { swap(w.a(), w.b()); std::swap(w.ma, w.mb); });
        add("opt::swap(b,a)", false, [](world& w) { opt::swap(w.b(), w.a()); std::swap(w.ma, w.mb); });
        return v;
    }
    std::vector<op> os = ops();
    bool visited[4][4] = {};
    unsigned long long faults = 0;
    template<class O> static O* construct(cell& c, int m, unsigned char dirt) {
        std::memset(c.pre, 0xC3, 16); std::memset(c.post, 0xC3, 16); std::memset(c.bytes, dirt, sizeof c.bytes);
        return m == NONE ? ::new(static_cast<void*>(c.bytes)) O : ::new(static_cast<void*>(c.bytes)) O(std::in_place, m + 1);
    }
    template<class O> static void check_one(O& o, int m, cell& c, int kind) {
        const O& k = o;
        const bool e = m != NONE;
        if (k.has_value() != e) { MC_CHECK(false, e ? "engaged option reports empty" : "empty option reports a value"); return; }
        MC_CHECK(bool(k) == e && (k == opt::none) != e && (k.ptr_or_null() != nullptr) == e && (k.end() - k.begin()) == e, "queries disagree with has_value");
        if (e) { const int v = k->num(); MC_CHECK(m == MOVED || v == m + 1, "stored value differs from the model"); }
        for (unsigned char x : c.pre) if (x != 0xC3) { MC_CHECK(false, "bytes before the option overwritten"); break; }
        for (unsigned char x : c.post) if (x != 0xC3) { MC_CHECK(false, "bytes after the option overwritten"); break; }
        for (std::size_t i = sizeof(O); i < sizeof c.bytes; ++i) if (c.bytes[i] != c.bytes[sizeof c.bytes - 1]) { MC_CHECK(false, "bytes after the option overwritten"); break; }
        MC_CHECK(trk::count_in(c.bytes, sizeof c.bytes) == (e ? per(kind) : 0), "objects alive in the option differ from its state");
    }
    static int sid(int m) { return m == MOVED ? 3 : m + 1; }
    long run(int ia, int ib, unsigned char dirt, const int* s, int n, long k = 0, long l = 0) {
        world w;
        mc::clear(); mc::push("start a", ia); mc::push("b", ib);
        if (k) mc::push("throw at point", k);
        if (l) mc::push("and at point", l);
        const int objects = trk::n_live; const long allocs = trk::live_allocs; const auto failures = mc::violation_count;
        w.pa = construct<OT>(w.ca, ia, dirt); w.pb = construct<OU>(w.cb, ib, dirt); w.ma = ia; w.mb = ib; w.live = true;
        auto check = [&] { check_one(w.a(), w.ma, w.ca, A); check_one(w.b(), w.mb, w.cb, B); MC_CHECK(trk::n_live == objects + (w.ma == NONE ? 0 : per(A)) + (w.mb == NONE ? 0 : per(B)), "objects alive outside of the options"); visited[sid(w.ma)][sid(w.mb)] = true; };
        check();
        trk::arm(k, l); trk::disarm();
        for (int j = 0; j < n; ++j) {
            const op& o = os[std::size_t(s[j])];
            mc::push(o.name.c_str());
            const bool ea = w.ma != NONE, eb = w.mb != NONE; const int fired = trk::fired; bool threw = false;
            w.emplacing = 0; trk::armed = true;
            try { o.run(w); } catch (const trk::injected&) { threw = true; }
            trk::armed = false;
            ++mc::stats.transitions;
            if (threw) {
                mc::push("(threw)");
                if (w.live && !o.weak) MC_CHECK(w.a().has_value() == ea && w.b().has_value() == eb, "a failed operation changed whether an option holds a value");
                if (w.emplacing == 1) MC_CHECK(!w.a().has_value(), "a failed emplace left a value behind");
                if (w.emplacing == 2) MC_CHECK(!w.b().has_value(), "a failed emplace left a value behind");
                if (!w.live) { MC_CHECK(trk::count_in(w.ca.bytes, sizeof w.ca.bytes) == 0, "a failed construction left an object"); w.pa = ::new(static_cast<void*>(w.ca.bytes)) OT; w.live = true; }
                w.ma = read(w.a()); w.mb = read(w.b());
            } else MC_CHECK(trk::fired == fired, "an exception of the payload was swallowed");
            check();
        }
        const long pts = trk::points;
        mc::push("destroy");
        w.pa->~OT(); w.pb->~OU();
        if (failures == mc::violation_count) { MC_CHECK(trk::n_live == objects, "values still alive after the options were destroyed"); MC_CHECK(trk::live_allocs == allocs, "memory leaked"); }
        if (failures != mc::violation_count) { trk::n_live = objects; trk::live_allocs = allocs; }
        ++mc::stats.traces;
        if (mc::stats.traces % 99991 == 17) mc::sample_trace();
        return pts;
    }
    void all(int n, unsigned char dirt, bool pairs) {
        const int N = int(os.size());
        for (int ia = NONE; ia < 2; ++ia) for (int ib = NONE; ib < 2; ++ib) {
            std::vector<int> s(std::size_t(n), 0);
            for (;;) {
                const long p = run(ia, ib, dirt, s.data(), n);
                if (tt::X) for (long k = 1; k <= p; ++k) {
                    const long q = run(ia, ib, dirt, s.data(), n, k); ++faults;
                    if (pairs) for (long l = k + 1; l <= q; ++l) { run(ia, ib, dirt, s.data(), n, k, l); ++faults; }
                }
                int k = n - 1;
                while (k >= 0 && ++s[std::size_t(k)] == N) { s[std::size_t(k)] = 0; --k; }
                if (k < 0) break;
            }
        }
    }
    void explore(int depth) {
        static char nm[128]; std::snprintf(nm, sizeof nm, "option<%s> and option<%s>", kind_name[A], kind_name[B]);
        mc::set_ctx(nm);
        for (unsigned char d : {0x00, 0xFF, 0x01, 0xA5}) all(1, d, true);
        for (int n = 2; n <= depth; ++n) all(n, n == 2 ? 0xFF : 0x00, n == 1);
        for (auto& r : visited) for (bool x : r) mc::stats.states += x;
        mc::sample(std::string(nm) + ": " + std::to_string(os.size()) + " operations" + (tt::X ? ", " + std::to_string(faults) + " runs with injected faults" : ""));
    }
};
template<int A, int... Bs> void with_each(int depth, std::integer_sequence<int, Bs...>) {
    ([&] { if constexpr (A != Bs) pair<A, Bs>{}.explore(depth); }(), ...);
}
}
int main() {
    mc::init();
    mix::with_each<PART>(std::atoi(std::getenv("MC_DEPTH")), std::make_integer_sequence<int, mix::K>{});
    return mc::finish();
}
