// C25: an operation touches the bytes of the options it is applied to and nothing else, and reading never writes.
// The options under test live on pages of their own, flush with an inaccessible page on either side; the page of an option that an operation
// must not modify is read-only while it runs, the page of one it must not even look at is inaccessible.  Every access outside
// of what is allowed, even one that writes back what was there, is a fault of the hardware.  Operations whose sets of accessed
// bytes do not conflict commute, so every interleaving of them in several threads gives the results of some sequence.
#include "types.hpp"
#include <csetjmp>
#include <optional>
#include <sys/mman.h>

namespace {
sigjmp_buf env; volatile sig_atomic_t armed; void* volatile where; volatile bool write_fault;
void on_fault(int s, siginfo_t* i, void* uc) {
    if (!armed) mc::on_signal(s);
    armed = 0; where = i->si_addr;
#if defined(__x86_64__)
    write_fault = (static_cast<ucontext_t*>(uc)->uc_mcontext.gregs[REG_ERR] & 2) != 0;
#endif
    siglongjmp(env, 1);
}
constexpr std::size_t PG = 4096;
struct slot { // [inaccessible][page][inaccessible]
    unsigned char* page;
    slot() { unsigned char* p = static_cast<unsigned char*>(mmap(nullptr, 3 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)); if (p == MAP_FAILED) { std::perror("mmap"); std::exit(97); } page = p + PG; set(PROT_READ | PROT_WRITE); }
    void set(int prot) const { if (mprotect(page, PG, prot)) { std::perror("mprotect"); std::exit(97); } }
    template<class O> void* at(int place) const { std::memset(page, 0xA5, PG); return place ? page : page + PG - sizeof(O); }
};
slot SA, SB, SX;
enum access { RW, RO, NO };
constexpr int prots[] = {PROT_READ | PROT_WRITE, PROT_READ, PROT_NONE};

// run f with the pages of a and b accessible only as given; false if it stepped outside
template<class F> bool guarded(access a, access b, F&& f) {
    bool ok = true;
    SA.set(prots[a]); SB.set(prots[b]);
    if (sigsetjmp(env, 0) == 0) { armed = 1; f(); armed = 0; }
    else {
        ok = false;
        sigset_t m; sigemptyset(&m); sigaddset(&m, SIGSEGV); sigprocmask(SIG_UNBLOCK, &m, nullptr);
        const auto in = [](const slot& s) { return static_cast<unsigned char*>(where) >= s.page && static_cast<unsigned char*>(where) < s.page + PG; };
        mc::fail(in(SA) || in(SB) ? (write_fault ? "an operation writes to an option it must not modify" : "an operation accesses an option it has nothing to do with") : "an operation accesses memory outside of its options", "");
    }
    SA.set(PROT_READ | PROT_WRITE); SB.set(PROT_READ | PROT_WRITE);
    ++mc::stats.transitions;
    return ok;
}

bool has_token(const std::string& s, char c) {
    for (std::size_t i = 0; i < s.size(); ++i) if (s[i] == c && (i == 0 || !std::isalnum((unsigned char)s[i - 1])) && (i + 1 == s.size() || !std::isalnum((unsigned char)s[i + 1]))) return true;
    return false;
}
template<class A> bool inside(const opt::option<typename A::T>& o) {
    const unsigned char* p = reinterpret_cast<const unsigned char*>(__builtin_addressof(*o)); const unsigned char* b = reinterpret_cast<const unsigned char*>(__builtin_addressof(o));
    return p >= b && p + sizeof(typename A::T) <= b + sizeof o;
}

template<class A> struct run {
    using T = typename A::T; using O = opt::option<T>; using W = seq::world<A>;
    static void make(void* p, int m) {
        if (m == seq::NONE) ::new(p) O{}; else A::with(m, [&](auto&&... xs) { ::new(p) O(std::in_place, static_cast<decltype(xs)&&>(xs)...); });
    }
    // every modifying operation: only the options it names
    static void writes() {
        static const std::vector<seq::op<A>> ops = seq::make_ops<A>();
        for (int place = 0; place < 2; ++place) for (int ia = seq::NONE; ia < A::N; ++ia) for (int ib = seq::NONE; ib < A::N; ++ib) for (const auto& o : ops) for (int twice = 0; twice < 2; ++twice) {
            const std::string& n = o.name;
            access a = RW, b = RW;
            if (!has_token(n, 'b')) b = NO;
            for (const char* c : {"a=b", "a=*b", "a|=b", "a=a|b", "a=b|a", "a=a^b", "a=a&b", "a=b.filter(false)", "a=a.and_then(b)", "a=a.or_else(b)", "rebuild a(b)"}) if (n == c) b = RO;
            if (n == "b=a") a = RO;
            if (!has_token(n, 'a')) a = NO;
            if (n == "copy a, mutate copy") a = RO;
            mc::clear(); mc::push("a", ia); mc::push("b", ib); mc::push(place ? "first bytes of the page" : "last bytes of the page"); mc::push(n.c_str());
            W w; w.ma = ia; w.mb = ib;
            void* pa = SA.at<O>(place); void* pb = SB.at<O>(place);
            make(pa, ia); make(pb, ib);
            w.pa = static_cast<O*>(pa); w.pb = static_cast<O*>(pb); w.a_alive = true;
            bool ok = guarded(a, b, [&] { o.run(w); });
            if (ok && twice) { mc::push("and again"); ok = guarded(a, b, [&] { o.run(w); }); } // from the state the operation leads to
            ++mc::stats.traces;
            if (!ok) continue; // the state is unknown
            MC_CHECK(w.a().has_value() == (w.ma != seq::NONE) && w.b().has_value() == (w.mb != seq::NONE), "engagement differs from the model");
            if (w.a().has_value()) MC_CHECK(inside<A>(w.a()), "the value is not stored inside of the option");
            if (w.b().has_value()) MC_CHECK(inside<A>(w.b()), "the value is not stored inside of the option");
            for (const slot* s : {&SA, &SB}) { // the rest of the page
                const unsigned char* f = s->page + (place ? sizeof(O) : 0); bool same = true;
                for (std::size_t i = 0; i < PG - sizeof(O); ++i) same &= f[i] == 0xA5;
                MC_CHECK(same, "bytes next to the option changed");
            }
            w.a().~O(); w.b().~O();
        }
    }
    // every reading operation: nothing is written
    template<class F> static void read(const char* name, O* a, O* b, F f) {
        mc::scope s(name);
        const bool ok = guarded(RO, RO, [&] { f(*a, std::as_const(*a), *b, std::as_const(*b)); });
        (void)ok;
    }
    static void reads() {
        constexpr bool cc = std::is_copy_constructible_v<T>;
        for (int place = 0; place < 2; ++place) for (int ia = seq::NONE; ia < A::N; ++ia) for (int ib = seq::NONE; ib < A::N; ++ib) {
            mc::clear(); mc::push("a", ia); mc::push("b", ib); mc::push(place ? "first bytes of the page" : "last bytes of the page");
            void* pa = SA.at<O>(place); void* pb = SB.at<O>(place);
            make(pa, ia); make(pb, ib);
            O* a = static_cast<O*>(pa); O* b = static_cast<O*>(pb);
            const bool on = ia != seq::NONE;
            ++mc::stats.states; ++mc::stats.traces;
#define RD(name, ...) read(name, a, b, [&](O& m, const O& c, O& m2, const O& c2) { (void)m; (void)c; (void)m2; (void)c2; __VA_ARGS__; })
            RD("has_value", volatile bool r = m.has_value(); r = c.has_value(); MC_CHECK(r == on, "has_value"));
            RD("operator bool", volatile bool r = bool(m); r = bool(c); MC_CHECK(r == on, "operator bool"));
            RD("== none", volatile bool r = c == opt::none; r = opt::none != c; r = c < opt::none; r = opt::none >= c; r = c > opt::none; r = c <= opt::none);
            RD("begin, end", volatile auto n = m.end() - m.begin(); n = c.end() - c.begin(); MC_CHECK(n == on, "range"); for (auto& x : m) { (void)x; } for (auto& x : c) { (void)x; });
            RD("ptr_or_null", volatile bool r = m.ptr_or_null() == c.ptr_or_null(); MC_CHECK(r, "ptr_or_null"));
            RD("get_unchecked", volatile const void* p = __builtin_addressof(m.get_unchecked()); p = __builtin_addressof(c.get_unchecked()); (void)p);
            if (on) {
                RD("get, *, ->", volatile bool r = __builtin_addressof(*m) == __builtin_addressof(*c) && __builtin_addressof(m.get()) == __builtin_addressof(c.get()) && m.operator->() == c.operator->(); MC_CHECK(r, "the same object"));
                RD("rvalue access", T&& x = std::move(m).get(); T&& y = *std::move(m); const T&& z = std::move(c).get(); T&& u = std::move(m).value(); T&& v = std::move(m).get_unchecked(); volatile bool r = __builtin_addressof(x) == __builtin_addressof(y) && __builtin_addressof(u) == __builtin_addressof(v) && __builtin_addressof(z) == __builtin_addressof(u); MC_CHECK(r, "the same object"));
                RD("value, value_or_throw", volatile bool r = __builtin_addressof(m.value()) == __builtin_addressof(c.value_or_throw()); (void)r);
                RD("index", volatile int i = A::index(*c); MC_CHECK(i == ia, "the value"));
            } else {
                RD("value() throws", bool t = false; try { (void)m.value(); } catch (const opt::bad_access&) { t = true; } try { (void)c.value_or_throw(); t = false; } catch (const opt::bad_access&) { } MC_CHECK(t, "throws"));
            }
            int n = 0;
            RD("inspect", m.inspect([&](const T&) { ++n; }); c.inspect([&](const T&) { ++n; }); std::move(c).inspect([&](const T&) { ++n; }));
            RD("has_value_and", volatile bool r = m.has_value_and([&](const T&) { return true; }); r = c.has_value_and([&](const T&) { return true; }); r = std::move(c).has_value_and([&](const T&) { return false; }); r = std::move(m).has_value_and([&](const T&) { return false; }));
            RD("take_if(false)", if constexpr (std::is_move_constructible_v<T>) { auto o = m.take_if([](const T&) { return false; }); MC_CHECK(!o.has_value(), "taken"); });
            RD("map", auto o = m.map([](const T&) { return 1; }); auto q = c.map([](const T&) { return 1; }); auto s = std::move(c).map([](const T&) { return 1; }); auto u = std::move(m).map([](const T&) { return 1; }); MC_CHECK(o.has_value() == on && q.has_value() == on && s.has_value() == on && u.has_value() == on, "map"));
            RD("and_then", auto o = m.and_then([](const T&) { return opt::option<int>(1); }); auto q = c.and_then([](const T&) { return opt::option<int>{}; }); MC_CHECK(o.has_value() == on && !q.has_value(), "and_then"));
            RD("map_or", volatile int r = m.map_or(3, [](const T&) { return 4; }); r = c.map_or(3, [](const T&) { return 4; }); r = std::move(c).map_or(3, [](const T&) { return 4; }); MC_CHECK(r == 3 + on, "map_or"));
            RD("map_or_else", volatile int r = m.map_or_else([] { return 3; }, [](const T&) { return 4; }); r = c.map_or_else([] { return 3; }, [](const T&) { return 4; }); MC_CHECK(r == 3 + on, "map_or_else"));
            if constexpr (cc) {
                RD("copy", O o = c; O p = m; MC_CHECK(o.has_value() == on && p.has_value() == on, "copy"); if (on) MC_CHECK(A::index(*o) == ia && A::index(*p) == ia, "copy"));
                RD("filter", auto o = c.filter([](const T&) { return true; }); auto p = m.filter([](const T&) { return false; }); MC_CHECK(o.has_value() == on && !p.has_value(), "filter"));
                RD("or_else", auto o = c.or_else([&] { return O(c2); }); auto p = m.or_else([&] { return O(m2); }); MC_CHECK(o.has_value() == (on || ib != seq::NONE) && p.has_value() == o.has_value(), "or_else"));
                RD("| & ^", auto o = c | c2; auto p = c & c2; auto q = c ^ c2; auto r = m | m2; auto s = m & m2; auto t = m ^ m2; MC_CHECK(o.has_value() == r.has_value() && p.has_value() == s.has_value() && q.has_value() == t.has_value(), "operators"));
                RD("zip", auto z = opt::zip(c, c2); auto y = opt::zip(m, m2); MC_CHECK(z.has_value() == (on && ib != seq::NONE) && y.has_value() == z.has_value(), "zip"));
                if constexpr (std::is_copy_assignable_v<T>) { RD("assign from it", O o; o = c; o = m; o = c2; o |= c; if (on) { o = *c; o = *m; } MC_CHECK(on || o.has_value() == (ib != seq::NONE), "assignment")); }
                if (ib != seq::NONE) { RD("value_or", T x = c.value_or(*c2); T y = m.value_or(*m2); MC_CHECK(A::index(x) == (on ? ia : ib) && A::index(y) == (on ? ia : ib), "value_or")); }
            }
            RD("zip_with", auto z = opt::zip_with([](const T&, const T&) { return 1; }, c, c2); auto y = opt::zip_with([](const T&, const T&) { return 1; }, m, m2); MC_CHECK(z.has_value() == y.has_value(), "zip_with"));
            if constexpr (opt::is_option_v<T>) {
                if constexpr (cc) { RD("flatten", auto f = opt::flatten(c); auto g = opt::flatten(m); MC_CHECK(f.has_value() == g.has_value(), "flatten")); }
            }
            if constexpr (is_eq<T>::value) { RD("==", volatile bool r = c == c2; r = m == m2; if constexpr (is_eqv<T>::value) { if (ib != seq::NONE) { r = c == *c2; r = *m2 == m; } } (void)r); }
            if constexpr (is_lt<T>::value) { RD("<", volatile bool r = c < c2; if constexpr (is_eqv<T>::value) { if (ib != seq::NONE) { r = c < *c2; r = *m2 < m; } } (void)r); }
            if constexpr (is_hash<T>::value) { RD("hash", volatile std::size_t h = std::hash<O>{}(c); (void)h); }
            RD("io", auto i = opt::io(c); auto j = opt::io(m); (void)i; (void)j);
            a->~O(); b->~O();
        }
    }
    template<class X, class = void> struct is_eq : std::false_type {};
    template<class X> struct is_eq<X, std::void_t<decltype(bool(std::declval<const opt::option<X>&>() == std::declval<const opt::option<X>&>())), decltype(bool(std::declval<const X&>() == std::declval<const X&>()))>> : std::bool_constant<!opt::is_option_v<X>> {};
    template<class X, class = void> struct is_eqv : std::false_type {};
    template<class X> struct is_eqv<X, std::void_t<decltype(bool(std::declval<const opt::option<X>&>() == std::declval<const X&>()))>> : std::true_type {};
    template<class X, class = void> struct is_lt : std::false_type {};
    template<class X> struct is_lt<X, std::void_t<decltype(bool(std::declval<const X&>() < std::declval<const X&>()))>> : std::bool_constant<!opt::is_option_v<X>> {};
    template<class X, class = void> struct is_hash : std::false_type {};
    template<class X> struct is_hash<X, std::void_t<decltype(std::hash<opt::option<X>>{}(std::declval<const opt::option<X>&>()))>> : std::true_type {};
};
template<class... As> void go(ty::list<As...>) {
    const char* only = std::getenv("MC_ONLY");
    ((!only || std::strcmp(only, As::name) == 0 ? (mc::set_ctx(As::name), run<As>::reads(), run<As>::writes(), mc::sample(std::string(As::name) + ": every pair of states at either edge of a page, every operation with its operands' pages protected")) : void()), ...);
}
}
int main() {
    mc::init();
    static unsigned char st[65536]; stack_t ss{}; ss.ss_sp = st; ss.ss_size = sizeof st; sigaltstack(&ss, nullptr);
    struct sigaction s{}; s.sa_sigaction = on_fault; s.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGSEGV, &s, nullptr); sigaction(SIGBUS, &s, nullptr);
    go(ty::GROUP{});
    return mc::finish();
}
