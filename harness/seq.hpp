// Explicit-state exploration of operation sequences over two opt::option<T> objects.
// Every transition runs the real code; a small reference model (an int per object) is the oracle.
#pragma once
#include "mc.hpp"
#include "track.hpp"
#include <opt/option.hpp>
#include <functional>
#include <new>
#include <type_traits>
#include <utility>

namespace seq {

// Model of one option: NONE, 0..N-1 = holds value number i, MOVED = holds an unspecified (moved-from) value.
constexpr int NONE = -1;
constexpr int MOVED = 1000;

// Inside an operation, the harness' own comparisons must not be fault points.
struct calm { bool was = trk::armed; calm() { trk::armed = false; } ~calm() { trk::armed = was; } };
#define OP_CHECK(cond, key) do { ::seq::calm calm_; MC_CHECK(cond, key); } while (0)

template<class Self, class T_>
struct adapter {
    using T = T_;
    static constexpr int N = 2;
    static constexpr bool move_keeps = std::is_trivially_copyable_v<T_>;
    static bool eq(const T& a, const T& b) { return a == b; }
    static int index(const T& v) {
        for (int i = 0; i < Self::N; ++i) { if (Self::eq(v, Self::make(i))) return i; }
        return -2;
    }
    template<class F> static decltype(auto) with(int i, F&& f) { return f(Self::make(i)); }
    static void enter() {}
    template<class W> static void invariant(W&) {}
    template<class W> static void leave(W&) {}
    template<class W> static void engaged_is_alive(W&) {}
};

template<class A>
struct world {
    using T = typename A::T;
    using O = opt::option<T>;
    struct cell { unsigned char pre[16]; alignas(O) unsigned char bytes[sizeof(O)]; unsigned char post[16]; };
    cell ca, cb;
    int ma = NONE, mb = NONE;
    O* pa = nullptr; O* pb = nullptr;
    bool a_alive = false;
    int emplacing = 0; // 1, 2: inside emplace of a, b (its arguments are made)
    template<class F> void renew(int m, F f) { // destroy `a` and construct it anew in the same storage
        a_alive = false; pa->~O(); f(static_cast<void*>(pa)); a_alive = true; ma = m;
    }
    // Take the model over from the objects (after an exception). Returns false if the state is inconsistent.
    void resync() {
        if (!a_alive) { ::new(static_cast<void*>(pa)) O; a_alive = true; ma = NONE; }
        else ma = read(*pa);
        mb = read(*pb);
    }
    static int read(const O& o) { if (!o.has_value()) return NONE; int i = A::index(*o); return i < 0 ? MOVED : i; }
    O& a() { return *pa; }
    O& b() { return *pb; }

    static void construct(cell& c, O*& p, int m, unsigned char dirt) {
        std::memset(c.pre, 0xC3, sizeof c.pre); std::memset(c.post, 0xC3, sizeof c.post);
        std::memset(c.bytes, dirt, sizeof c.bytes);
        if (m == NONE) p = ::new(static_cast<void*>(c.bytes)) O{};
        else A::with(m, [&](auto&&... xs) { p = ::new(static_cast<void*>(c.bytes)) O(std::in_place, static_cast<decltype(xs)&&>(xs)...); });
    }
    void open(int ia, int ib, unsigned char dirt) {
        A::enter();
        ma = ia; mb = ib;
        allocs = trk::live_allocs; objects = trk::n_live; failures = mc::violation_count;
        construct(ca, pa, ia, dirt); construct(cb, pb, ib, dirt);
        a_alive = true;
    }
    void close() {
        pa->~O(); pb->~O();
        if (failures == mc::violation_count) {
            if (trk::live_allocs != allocs) { MC_CHECK(false, trk::live_allocs > allocs ? "memory leaked after destruction" : "memory released twice"); trk::live_allocs = allocs; }
            if (trk::n_live != objects) { MC_CHECK(false, "values still alive after the options were destroyed"); }
        }
        if (failures != mc::violation_count) { trk::n_live = objects; trk::live_allocs = allocs; }
        A::leave(*this);
    }
    long allocs = 0; int objects = 0; unsigned long long failures = 0;
    void check_one(O& o, int m, cell& c) {
        const O& k = o;
        const bool engaged = m != NONE;
        if (o.has_value() != engaged) { MC_CHECK(false, engaged ? "engaged option reports empty" : "empty option reports a value"); return; }
        MC_CHECK(bool(k) == engaged, "operator bool");
        MC_CHECK((k == opt::none) == !engaged, "== none");
        MC_CHECK((opt::none != k) == engaged, "none !=");
        MC_CHECK((k.ptr_or_null() != nullptr) == engaged, "ptr_or_null");
        MC_CHECK((k.end() - k.begin()) == (engaged ? 1 : 0), "range length");
        if (engaged) {
            const T& v = *k;
            MC_CHECK(__builtin_addressof(v) == __builtin_addressof(o.get()), "get and operator* name the same object");
            MC_CHECK(k.ptr_or_null() == __builtin_addressof(v), "ptr_or_null names the value");
            const char* p = reinterpret_cast<const char*>(__builtin_addressof(v));
            MC_CHECK(p >= reinterpret_cast<const char*>(c.bytes) && p + sizeof(T) <= reinterpret_cast<const char*>(c.bytes) + sizeof(O), "value stored inside the option");
            if (m != MOVED) { MC_CHECK(A::index(v) == m, "stored value differs from the model"); }
        }
        for (unsigned char x : c.pre) if (x != 0xC3) { MC_CHECK(false, "bytes before the option overwritten"); break; }
        for (unsigned char x : c.post) if (x != 0xC3) { MC_CHECK(false, "bytes after the option overwritten"); break; }
    }
    void check() {
        check_one(a(), ma, ca);
        check_one(b(), mb, cb);
        A::invariant(*this);
#ifdef MC_DIGEST
        mc::obs(unsigned(raw(a()) + 8) * 64u + unsigned(raw(b()) + 8));
        mc::obs((unsigned long long)trk::live_allocs - (unsigned long long)allocs);
#endif
    }
    static int raw(const O& o) { return o.has_value() ? A::index(*o) : -5; } // also what a moved-from value looks like
};

template<class A>
struct op {
    std::string name;
    bool core;
    std::function<void(world<A>&)> run;
    bool weak; // after an exception the operation may have changed which option is engaged
};

// Result of moving out of a model value
template<class A> int after_move(int m) { return (m == NONE || A::move_keeps) ? m : MOVED; }

template<class A>
std::vector<op<A>> make_ops() {
    using T = typename A::T;
    using O = opt::option<T>;
    using W = world<A>;
    constexpr bool cc = std::is_copy_constructible_v<T>;
    constexpr bool ca = cc && std::is_copy_assignable_v<T>;
    constexpr bool mc_ = std::is_move_constructible_v<T>;
    constexpr bool ma = mc_ && std::is_move_assignable_v<T>;
    constexpr bool sw = mc_ && std::is_swappable_v<T>;
    std::vector<op<A>> v;
    auto add = [&](std::string n, bool core, auto f) {
        bool weak = false;
        for (const char* w : {"rebuild", "rotate", "a=b.take", "a=a.take", "drop", "a.take_if(true)", "a=move(a).or_else", "a.emplace", "b.emplace"}) weak = weak || n.rfind(w, 0) == 0;
        v.push_back({std::move(n), core, f, weak});
    };
    auto num = [](const char* s, int i) { return std::string(s) + "#" + std::to_string(i); };

    add("a=none", true, [](W& w) { O& r = (w.a() = opt::none); w.ma = NONE; OP_CHECK(&r == &w.a(), "assignment returns *this"); });
    add("a.reset", false, [](W& w) { w.a().reset(); w.ma = NONE; });
    add("b=none", true, [](W& w) { w.b() = opt::none; w.mb = NONE; });
    add("rebuild a()", false, [](W& w) { w.renew(NONE, [&](void* p_) { ::new(p_) O; }); });
    add("rebuild a(none)", false, [](W& w) { w.renew(NONE, [&](void* p_) { ::new(p_) O(opt::none); }); });
    for (int i = 0; i < A::N; ++i) {
        add(num("a.emplace", i), true, [i](W& w) {
            A::with(i, [&](auto&&... xs) { w.emplacing = 1; T& r = w.a().emplace(static_cast<decltype(xs)&&>(xs)...); w.ma = i; OP_CHECK(__builtin_addressof(r) == __builtin_addressof(*w.a()), "emplace returns the value"); });
        });
        add(num("b.emplace", i), true, [i](W& w) {
            A::with(i, [&](auto&&... xs) { w.emplacing = 2; w.b().emplace(static_cast<decltype(xs)&&>(xs)...); w.mb = i; });
        });
        add(num("a.try_emplace", i), true, [i](W& w) {
            A::with(i, [&](auto&&... xs) { T& r = w.a().try_emplace(static_cast<decltype(xs)&&>(xs)...); if (w.ma == NONE) w.ma = i; OP_CHECK(__builtin_addressof(r) == __builtin_addressof(*w.a()), "try_emplace returns the value"); });
        });
        add(num("rebuild a(in_place)", i), false, [i](W& w) {
            A::with(i, [&](auto&&... xs) { w.renew(i, [&](void* p_) { ::new(p_) O(std::in_place, static_cast<decltype(xs)&&>(xs)...); }); });
        });
        add(num("rebuild a=make_option", i), false, [i](W& w) {
            A::with(i, [&](auto&&... xs) { w.renew(i, [&](void* p_) { ::new(p_) O(opt::make_option<T>(static_cast<decltype(xs)&&>(xs)...)); }); });
        });
        if constexpr (mc_) {
            add(num("rebuild a(T&&)", i), false, [i](W& w) { auto&& t = A::make(i); w.renew(i, [&](void* p_) { ::new(p_) O(static_cast<T&&>(t)); }); });
        }
        if constexpr (cc) {
            add(num("rebuild a(const T&)", i), false, [i](W& w) { const T& t = A::make(i); w.renew(i, [&](void* p_) { ::new(p_) O(t); }); });
        }
        if constexpr (ma) {
            add(num("a=T&&", i), true, [i](W& w) { O& r = (w.a() = A::make(i)); w.ma = i; OP_CHECK(&r == &w.a(), "assignment returns *this"); });
            add(num("a=option(T)", i), false, [i](W& w) { w.a() = O(A::make(i)); w.ma = i; });
            add(num("a|=T", i), false, [i](W& w) { O& r = (w.a() |= A::make(i)); if (w.ma == NONE) w.ma = i; OP_CHECK(&r == &w.a(), "operator|= returns the left operand"); });
            add(num("*a=T", i), false, [i](W& w) { if (w.ma != NONE) { *w.a() = A::make(i); w.ma = i; } });
            add(num("a.value()=T", i), false, [i](W& w) {
                bool threw = false;
                if (MC_EXCEPTIONS || w.ma != NONE) { MC_TRY { w.a().value() = A::make(i); } MC_CATCH(const opt::bad_access&) { threw = true; } } else threw = true;
                OP_CHECK(threw == (w.ma == NONE), "value() throws bad_access exactly when empty");
                if (w.ma != NONE) w.ma = i;
            });
            add(num("for x:a x=T", i), false, [i](W& w) { int n = 0; for (T& x : w.a()) { x = A::make(i); ++n; } OP_CHECK(n == (w.ma != NONE), "iteration visits the value once"); if (w.ma != NONE) w.ma = i; });
            add(num("a.inspect(x=T)", i), false, [i](W& w) { w.a().inspect([i](T& x) { x = A::make(i); }); if (w.ma != NONE) w.ma = i; });
            add(num("a=move(a).value_or", i), false, [i](W& w) { w.a() = std::move(w.a()).value_or(A::make(i)); if (w.ma == NONE) w.ma = i; });
            add(num("a=move(a).or_else", i), false, [i](W& w) { O t = std::move(w.a()).or_else([i] { return O(A::make(i)); }); int mt = w.ma == NONE ? i : w.ma; w.a() = std::move(t); w.ma = mt; });
        }
        if constexpr (ca) {
            add(num("a=const T&", i), true, [i](W& w) { const T t = A::make(i); w.a() = t; w.ma = i; OP_CHECK(A::index(t) == i, "source of a copy changed"); });
            add(num("a=T&", i), false, [i](W& w) { T t = A::make(i); w.a() = t; w.ma = i; OP_CHECK(A::index(t) == i, "source of a copy changed"); });
            add(num("a=a.value_or", i), false, [i](W& w) { w.a() = w.a().value_or(A::make(i)); if (w.ma == NONE) w.ma = i; });
            if constexpr (!opt::is_option_v<T>) add(num("a=a|T", i), false, [i](W& w) { w.a() = w.a() | A::make(i); if (w.ma == NONE) w.ma = i; });
        }
    }
    if constexpr (ca) {
        add("a=b", true, [](W& w) { O& r = (w.a() = w.b()); w.ma = w.mb; OP_CHECK(&r == &w.a(), "assignment returns *this"); });
        add("b=a", true, [](W& w) { w.b() = std::as_const(w.a()); w.mb = w.ma; });
        add("a=a", false, [](W& w) { O& s = w.a(); w.a() = s; });
        add("a=*a", false, [](W& w) { if (w.ma != NONE) w.a() = *w.a(); });
        add("a=*b", false, [](W& w) { if (w.mb != NONE) { w.a() = *std::as_const(w.b()); w.ma = w.mb; } });
        add("a|=b", false, [](W& w) { w.a() |= w.b(); if (w.ma == NONE) w.ma = w.mb; });
        add("a=a|b", false, [](W& w) { w.a() = w.a() | w.b(); if (w.ma == NONE) w.ma = w.mb; });
        add("a=b|a", false, [](W& w) { w.a() = w.b() | w.a(); if (w.mb != NONE) w.ma = w.mb; });
        add("a=a^b", false, [](W& w) { w.a() = w.a() ^ w.b(); w.ma = (w.ma == NONE) ? w.mb : (w.mb == NONE ? w.ma : NONE); });
        add("a=a&b", false, [](W& w) { w.a() = w.a() & w.b(); w.ma = w.ma == NONE ? NONE : w.mb; });
        add("a=a.filter(true)", false, [](W& w) { w.a() = w.a().filter([](const T&) { return true; }); });
        add("a=b.filter(false)", false, [](W& w) { w.a() = w.b().filter([](const T&) { return false; }); w.ma = NONE; });
        add("a=a.map(id)", false, [](W& w) { w.a() = w.a().map([](const T& x) -> T { return x; }); });
        add("a=a.and_then(b)", false, [](W& w) { w.a() = w.a().and_then([&](const T&) { return w.b(); }); w.ma = w.ma == NONE ? NONE : w.mb; });
        add("a=a.or_else(b)", false, [](W& w) { w.a() = std::as_const(w.a()).or_else([&] { return w.b(); }); w.ma = w.ma == NONE ? w.mb : w.ma; });
    }
    if constexpr (cc) {
        add("rebuild a(b)", false, [](W& w) { w.renew(w.mb, [&](void* p_) { ::new(p_) O(std::as_const(w.b())); }); });
        add("copy a, mutate copy", false, [](W& w) {
            O t = w.a(); OP_CHECK(t.has_value() == (w.ma != NONE), "copy engaged like its source");
            if (w.ma != NONE && w.ma != MOVED) OP_CHECK(A::index(*t) == w.ma, "copy equals its source");
            if (w.ma == NONE) A::with(0, [&](auto&&... xs) { t.emplace(static_cast<decltype(xs)&&>(xs)...); }); else t = opt::none;
        });
    }
    if constexpr (ma) {
        add("a=move(b)", true, [](W& w) { O& r = (w.a() = std::move(w.b())); w.ma = w.mb; w.mb = after_move<A>(w.mb); OP_CHECK(&r == &w.a(), "assignment returns *this"); });
        add("b=move(a)", true, [](W& w) { w.b() = std::move(w.a()); w.mb = w.ma; w.ma = after_move<A>(w.ma); });
        add("a=b.take", true, [](W& w) { w.a() = w.b().take(); w.ma = w.mb; w.mb = NONE; });
        add("a=a.take", false, [](W& w) { w.a() = w.a().take(); });
        add("a|=move(b)", false, [](W& w) { bool moved = w.ma == NONE; w.a() |= std::move(w.b()); if (moved) { w.ma = w.mb; w.mb = after_move<A>(w.mb); } });
        add("a=move(a)|move(b)", false, [](W& w) {
            O t = std::move(w.a()) | std::move(w.b());
            int mt = w.ma != NONE ? w.ma : w.mb;
            if (w.ma != NONE) w.ma = after_move<A>(w.ma); else w.mb = after_move<A>(w.mb);
            w.a() = std::move(t); w.ma = mt;
        });
        add("a=move(a)^move(b)", false, [](W& w) {
            O t = std::move(w.a()) ^ std::move(w.b());
            int mt = (w.ma == NONE) ? w.mb : (w.mb == NONE ? w.ma : NONE);
            if (mt != NONE) { if (w.mb == NONE) w.ma = after_move<A>(w.ma); else w.mb = after_move<A>(w.mb); }
            w.a() = std::move(t); w.ma = mt;
        });
        add("a=a&move(b)", false, [](W& w) {
            O t = w.a() & std::move(w.b());
            int mt = w.ma == NONE ? NONE : w.mb;
            if (w.ma != NONE) w.mb = after_move<A>(w.mb);
            w.a() = std::move(t); w.ma = mt;
        });
        add("a=move(b).filter(true)", false, [](W& w) { w.a() = std::move(w.b()).filter([](const T&) { return true; }); w.ma = w.mb; w.mb = after_move<A>(w.mb); });
        add("a=move(b).filter(false)", false, [](W& w) { w.a() = std::move(w.b()).filter([](const T&) { return false; }); w.ma = NONE; });
        add("a=move(b).map(id)", false, [](W& w) { w.a() = std::move(w.b()).map([](T&& x) -> T { return std::move(x); }); w.ma = w.mb; w.mb = after_move<A>(w.mb); });
        add("rotate a,b", false, [](W& w) { O t = std::move(w.a()); w.a() = std::move(w.b()); w.b() = std::move(t); std::swap(w.ma, w.mb); });
        if constexpr (A::move_keeps) add("a=move(a)", false, [](W& w) { O& s = w.a(); w.a() = std::move(s); });
    }
    if constexpr (mc_) {
        add("rebuild a(move(b))", false, [](W& w) { w.renew(w.mb, [&](void* p_) { ::new(p_) O(std::move(w.b())); }); w.mb = after_move<A>(w.mb); });
        add("drop a.take", true, [](W& w) { { O t = w.a().take(); OP_CHECK(t.has_value() == (w.ma != NONE), "take returns the value iff there was one"); if (w.ma != NONE && w.ma != MOVED) OP_CHECK(A::index(*t) == w.ma, "take returns the stored value"); } w.ma = NONE; });
        add("a.take_if(true)", false, [](W& w) { int calls = 0; { O t = w.a().take_if([&](T&) { ++calls; return true; }); OP_CHECK(t.has_value() == (w.ma != NONE), "take_if(true) takes the value"); } OP_CHECK(calls == (w.ma != NONE), "predicate called iff engaged"); w.ma = NONE; });
        add("a.take_if(false)", false, [](W& w) { O t = w.a().take_if([&](const T&) { return false; }); OP_CHECK(!t.has_value(), "take_if(false) takes nothing"); });
        add("rebuild a(b.take)", false, [](W& w) { int m = w.mb; w.renew(m, [&](void* p_) { ::new(p_) O(w.b().take()); }); w.mb = NONE; });
    }
    if constexpr (sw) {
        add("a.swap(b)", true, [](W& w) { w.a().swap(w.b()); std::swap(w.ma, w.mb); });
        add("swap(b,a)", false, [](W& w) { using std::swap; swap(w.b(), w.a()); std::swap(w.ma, w.mb); });
        if constexpr (A::move_keeps) add("a.swap(a)", false, [](W& w) { w.a().swap(w.a()); });
    }
    return v;
}

template<class A>
struct explorer {
    using W = world<A>;
    std::vector<op<A>> ops = make_ops<A>();
    static constexpr int SN = A::N + 2;
    bool visited[SN][SN] = {};
    static int sid(int m) { return m == MOVED ? A::N + 1 : m + 1; }
    void mark(const W& w) { visited[sid(w.ma)][sid(w.mb)] = true; }
    unsigned long long n_states() const { unsigned long long n = 0; for (auto& r : visited) for (bool x : r) n += x; return n; }

    // Runs one operation sequence; faults at throw points k and l (0 = none). Returns the number of throw points passed.
    long run_seq(int ia, int ib, unsigned char dirt, const int* seq, int n, long k = 0, long l = 0) {
        W w;
        mc::clear();
        mc::push("start a", ia); mc::push("b", ib);
        if (k) mc::push("throw at point", k);
        if (l) mc::push("and at point", l);
        w.open(ia, ib, dirt);
        w.check();
        mark(w);
        trk::arm(k, l); trk::disarm();
        for (int j = 0; j < n; ++j) {
            const op<A>& o = ops[std::size_t(seq[j])];
            mc::push(o.name.c_str());
            const bool ea = w.ma != NONE, eb = w.mb != NONE;
            bool threw = false;
            const int fired = trk::fired;
            w.emplacing = 0;
            trk::armed = true;
            MC_TRY { o.run(w); trk::armed = false; }
            MC_CATCH(const trk::injected&) { trk::armed = false; threw = true; }
            MC_CATCH(const std::bad_alloc&) { trk::armed = false; threw = true; }
            if (threw) {
                mc::push("(threw)");
                MC_CHECK(trk::fired > fired, "exception without an injected fault");
                if (w.a_alive && !o.weak) {
                    MC_CHECK(w.a().has_value() == ea, "a failed operation changed whether the left option holds a value");
                    MC_CHECK(w.b().has_value() == eb, "a failed operation changed whether the right option holds a value");
                }
                if (w.emplacing == 1) MC_CHECK(!w.a().has_value(), "a failed emplace left a value behind");
                if (w.emplacing == 2) MC_CHECK(!w.b().has_value(), "a failed emplace left a value behind");
                if (w.a_alive) A::engaged_is_alive(w);
                w.resync();
            } else if (trk::fired > fired) MC_CHECK(false, "an exception of the payload was swallowed");
            ++mc::stats.transitions;
            w.check();
            mark(w);
        }
        const long pts = trk::points;
        mc::push("destroy");
        w.close();
        ++mc::stats.traces;
        if (mc::stats.traces % 99991 == 17) mc::sample_trace();
        return pts;
    }
    // Every sequence of n operations, the i-th drawn from idx[min(i, last)], from every pair of initial states.
    template<class F>
    void each(const std::vector<std::vector<int>>& idxs, int n, F f) {
        auto at = [&](int k) -> const std::vector<int>& { return idxs[std::size_t(k) < idxs.size() ? std::size_t(k) : idxs.size() - 1]; };
        for (int ia = NONE; ia < A::N; ++ia) for (int ib = NONE; ib < A::N; ++ib) {
            std::vector<int> c(std::size_t(n), 0); std::vector<int> s(static_cast<std::size_t>(n));
            for (;;) {
                for (int k = 0; k < n; ++k) s[std::size_t(k)] = at(k)[std::size_t(c[std::size_t(k)])];
                f(ia, ib, s.data());
                int k = n - 1;
                while (k >= 0 && ++c[std::size_t(k)] == int(at(k).size())) { c[std::size_t(k)] = 0; --k; }
                if (k < 0) break;
            }
        }
    }
    // All sequences of exactly `n` operations drawn from `idx`, from every initial pair of states.
    void all(const std::vector<int>& idx, int n, unsigned char dirt) {
        each({idx}, n, [&](int ia, int ib, const int* s) { run_seq(ia, ib, dirt, s, n); });
    }
    // ... and each of them again with a fault at every single throw point (and every pair of throw points).
    void all_faults(const std::vector<std::vector<int>>& idxs, int n, unsigned char dirt, bool pairs) {
        each(idxs, n, [&](int ia, int ib, const int* s) {
            const long p = run_seq(ia, ib, dirt, s, n);
            for (long k = 1; k <= p; ++k) {
                const long q = run_seq(ia, ib, dirt, s, n, k);
                ++fault_runs;
                if (pairs) for (long l = k + 1; l <= q; ++l) { run_seq(ia, ib, dirt, s, n, k, l); ++fault_runs; }
            }
        });
    }
    unsigned long long fault_runs = 0;
    std::vector<int> every() { std::vector<int> r; for (int i = 0; i < int(ops.size()); ++i) r.push_back(i); return r; }
    std::vector<int> core() { std::vector<int> r; for (int i = 0; i < int(ops.size()); ++i) if (ops[std::size_t(i)].core) r.push_back(i); return r; }
    void explore(int full_depth, int core_depth) {
        mc::set_ctx(A::name);
        const auto e = every(), c = core();
        for (unsigned char d : {0x00, 0xFF, 0x01, 0xA5}) all(e, 1, (unsigned char)d);
        if (full_depth >= 2) all(e, 2, 0xA5);
        if (full_depth >= 3) all(e, 3, 0x00);
        if (core_depth >= 3) all(c, 3, 0xFF);
        if (core_depth >= 4) all(c, 4, 0x00);
        if (core_depth >= 5) all(c, 5, 0x00);
        mc::stats.states += n_states();
        mc::sample(std::string(A::name) + ": " + std::to_string(e.size()) + " operations (" + std::to_string(c.size()) + " core), " + std::to_string(n_states()) + " model states");
    }
    void explore_faults(int full_depth, int core_depth, bool pairs) {
        mc::set_ctx(A::name);
        const auto e = every(), c = core();
        for (unsigned char d : {0x00, 0xFF}) all_faults({e}, 1, (unsigned char)d, true);
        if (full_depth >= 2) all_faults({e}, 2, 0xA5, pairs);
        else if (core_depth >= 2) all_faults({e, c}, 2, 0xA5, pairs);
        if (core_depth >= 3) all_faults({c}, 3, 0x00, pairs);
        if (core_depth >= 4) all_faults({c}, 4, 0x00, false);
        mc::stats.states += n_states();
        mc::sample(std::string(A::name) + ": " + std::to_string(e.size()) + " operations (" + std::to_string(c.size()) + " core), " + std::to_string(fault_runs) + " runs with injected faults");
    }
};

template<class... As>
void explore_all(int full_depth, int core_depth) {
    const char* only = std::getenv("MC_ONLY");
    ((!only || std::strcmp(only, As::name) == 0 ? explorer<As>{}.explore(full_depth, core_depth) : void()), ...);
}
template<class... As>
void fault_all(int full_depth, int core_depth, bool pairs) {
    const char* only = std::getenv("MC_ONLY");
    ((!only || std::strcmp(only, As::name) == 0 ? explorer<As>{}.explore_faults(full_depth, core_depth, pairs) : void()), ...);
}

}
