// C08: accessors, value/value_or, iteration for every value category x engagement x payload kind.
#include "fn.hpp"
#include <algorithm>
#include <iterator>
#include <numeric>
using namespace fn;

// An immovable payload is built in place.
template<class K, class F> void on(int s, F f) {
    using O = opt_of<K>;
    if constexpr (same<K, k_im>) { O o; if (s >= 0) o.emplace(s); f(o); }
    else { O o; if (s >= 0) o.emplace(K::make(s)); f(o); }
}
template<class K> bool val(const typename K::T& x, int s) { if constexpr (same<K, k_im>) return x.v == s; else return is_value<K>(x, s); }

template<class K> void accessors(K) {
    using T = typename K::T; using O = opt_of<K>;
    mc::set_ctx(K::name);
    for (int s = -1; s < K::N; ++s) each_cat([&](auto c_) {
        constexpr cat C = c_.value;
        on<K>(s, [&](O& o) {
            config cf("access", cat_name[C], s);
            using R = as_t<C, T>;
            MC_CHECK((same<decltype(as<C>(o).get()), R>), "type of get()");
            MC_CHECK((same<decltype(*as<C>(o)), R>), "type of operator*");
            MC_CHECK((same<decltype(as<C>(o).get_unchecked()), R>), "type of get_unchecked()");
            MC_CHECK((same<decltype(as<C>(o).value()), R>), "type of value()");
            MC_CHECK((same<decltype(as<C>(o).value_or_throw()), R>), "type of value_or_throw()");
            using P = std::remove_reference_t<R>*;
            MC_CHECK((same<decltype(as<C>(o).operator->()), P>), "type of operator->");
            MC_CHECK((same<decltype(as<C>(o).ptr_or_null()), P>), "type of ptr_or_null()");
            MC_CHECK(noexcept(as<C>(o).get()) && noexcept(*as<C>(o)) && noexcept(as<C>(o).has_value()) && noexcept(as<C>(o).get_unchecked()) && noexcept(as<C>(o).ptr_or_null()), "access is noexcept");
            MC_CHECK((std::is_constructible_v<bool, decltype(as<C>(o))> && !std::is_convertible_v<decltype(as<C>(o)), bool>), "explicit conversion to bool");
            OP(has_value); MC_CHECK(as<C>(o).has_value() == (s >= 0), "has_value");
            OP(bool); MC_CHECK(bool(as<C>(o)) == (s >= 0), "operator bool");
            OP(ptr_or_null); const T* p = as<C>(o).ptr_or_null();
            MC_CHECK((p != nullptr) == (s >= 0), "ptr_or_null is null exactly when empty");
            const char* lo = reinterpret_cast<const char*>(&o);
            if (s >= 0) {
                MC_CHECK(reinterpret_cast<const char*>(p) >= lo && reinterpret_cast<const char*>(p) + sizeof(T) <= lo + sizeof(O), "object inside the option");
                auto addr = [](auto&& r) { return static_cast<const T*>(std::addressof(r)); };
                OP(get); MC_CHECK(addr(as<C>(o).get()) == p, "get names the stored object");
                OP(operator*); MC_CHECK(addr(*as<C>(o)) == p, "operator* names the stored object");
                OP(get_unchecked); MC_CHECK(addr(as<C>(o).get_unchecked()) == p, "get_unchecked names the stored object");
                OP(operator->); MC_CHECK(as<C>(o).operator->() == p, "operator-> names the stored object");
                bool threw = false;
                try { OP(value); MC_CHECK(addr(as<C>(o).value()) == p, "value names the stored object"); } catch (...) { threw = true; }
                MC_CHECK(!threw, "value() throws on an engaged option");
                try { OP(value_or_throw); MC_CHECK(addr(as<C>(o).value_or_throw()) == p, "value_or_throw names the stored object"); } catch (...) { threw = true; }
                MC_CHECK(!threw, "value_or_throw() throws on an engaged option");
                MC_CHECK(val<K>(*p, s), "value kept by the accessors");
            } else {
                for (int which = 0; which < 2; ++which) {
                    int got = 0;
                    try { OP(value on empty); if (which) (void)as<C>(o).value(); else (void)as<C>(o).value_or_throw(); }
                    catch (const opt::bad_access& e) { got = 1; MC_CHECK(dynamic_cast<const std::exception*>(&e) && e.what() && *e.what(), "bad_access is a std::exception with a message"); }
                    catch (...) { got = 2; }
                    MC_CHECK(got == 1, which ? "value() on empty throws bad_access" : "value_or_throw() on empty throws bad_access");
                }
                MC_CHECK(!o.has_value(), "failed access engaged the option");
            }
            // iteration
            auto&& x = as<C>(o);
            using It = decltype(x.begin()); using E = std::remove_reference_t<decltype(*x.begin())>;
            constexpr bool cst = C == CLV || C == CRV;
            MC_CHECK((same<E, std::conditional_t<cst, const T, T>>), "element type of iteration");
            MC_CHECK((same<decltype(x.begin()), std::conditional_t<cst, typename O::const_iterator, typename O::iterator>>), "iterator types");
            MC_CHECK((same<typename std::iterator_traits<It>::iterator_category, std::random_access_iterator_tag>), "random access iterator");
            MC_CHECK((same<typename std::iterator_traits<It>::reference, E&> && same<typename std::iterator_traits<It>::pointer, E*> && same<typename std::iterator_traits<It>::difference_type, std::ptrdiff_t>), "iterator traits");
            OP(iterate); int n = 0; for (auto& e : x) { ++n; MC_CHECK(static_cast<const T*>(std::addressof(e)) == p, "iteration visits the stored object"); }
            MC_CHECK(n == (s >= 0), "number of elements visited");
            auto b = x.begin(), e = x.end();
            MC_CHECK(e - b == (s >= 0) && std::distance(b, e) == (s >= 0), "length of the range");
            MC_CHECK((b == e) == (s < 0) && (b != e) == (s >= 0), "iterator equality");
            MC_CHECK(b <= e && e >= b && b <= b && b >= b, "iterator order (weak)");
            if (s >= 0) {
                OP(iterator arithmetic);
                MC_CHECK(b < e && e > b && !(e < b) && !(b > e) && !(b < b) && !(b > b) && !(e <= b) && !(b >= e), "iterator order");
                MC_CHECK(b + 1 == e && 1 + b == e && e - 1 == b && b + 0 == b && e + -1 == b, "iterator + and -");
                auto i = b; MC_CHECK(&++i == &i && i == e, "pre-increment"); MC_CHECK(&--i == &i && i == b, "pre-decrement");
                MC_CHECK(i++ == b && i == e, "post-increment"); MC_CHECK(i-- == e && i == b, "post-decrement");
                MC_CHECK(&(i += 1) == &i && i == e, "+="); MC_CHECK(&(i -= 1) == &i && i == b, "-=");
                MC_CHECK(static_cast<const T*>(std::addressof(b[0])) == p && static_cast<const T*>(std::addressof(e[-1])) == p && static_cast<const T*>(std::addressof(*b)) == p && b.operator->() == p, "iterator access");
                MC_CHECK(b - e == -1, "negative distance");
                typename O::const_iterator ci = b; MC_CHECK(ci == x.begin() && static_cast<const T*>(std::addressof(*ci)) == p, "iterator converts to const_iterator");
            }
            It z{}, z2{}; MC_CHECK(z == z2 && !(z != z2) && z - z2 == 0, "value-initialised iterators are equal");
            MC_CHECK(std::count_if(x.begin(), x.end(), [&](const T& t) { return val<K>(t, s); }) == (s >= 0), "usable by algorithms");
            MC_CHECK(o.has_value() == (s >= 0), "access changed the state");
            if (s >= 0) MC_CHECK(val<K>(o.get(), s), "access changed the value");
        });
    });
    // writes through every mutable accessor reach the object
    if constexpr (K::movable && std::is_move_assignable_v<T>) for (int s = 0; s < K::N; ++s) for (int way = 0; way < 8; ++way) {
        config cf("write", "", s, way);
        O o = build<K>(s); const int t = (s + 1) % K::N; OP(write through accessor);
        switch (way) {
            case 0: o.get() = K::make(t); break; case 1: *o = K::make(t); break; case 2: o.get_unchecked() = K::make(t); break;
            case 3: o.value() = K::make(t); break; case 4: o.value_or_throw() = K::make(t); break; case 5: *o.ptr_or_null() = K::make(t); break;
            case 6: *o.operator->() = K::make(t); break; default: for (auto& e : o) e = K::make(t);
        }
        in_state_checked<K>(o, t, "write through an accessor reaches the object");
    }
    // moving out through rvalue access leaves the option engaged
    if constexpr (K::movable) for (int s = 0; s < K::N; ++s) for (int way = 0; way < 5; ++way) {
        config cf("move out", "", s, way);
        O o = build<K>(s); OP(move out);
        T t = way == 0 ? std::move(o).get() : way == 1 ? *std::move(o) : way == 2 ? std::move(o).value() : way == 3 ? std::move(o).value_or_throw() : std::move(o).get_unchecked();
        MC_CHECK(is_value<K>(t, s), "value moved out"); MC_CHECK(o.has_value(), "option still engaged after moving out");
        if constexpr (K::logged) MC_CHECK(o->v == 77, "rvalue access moved, not copied");
        if constexpr (same<T, MO>) MC_CHECK(o->v == 77, "rvalue access moved, not copied");
        if constexpr (same<T, std::unique_ptr<int>>) MC_CHECK(!*o, "rvalue access moved, not copied");
    }
}

template<class K> void value_or(K) {
    using T = typename K::T; using O = opt_of<K>;
    mc::set_ctx(K::name, "value_or");
    for (int s = -1; s < K::N; ++s) for (int d = 0; d < K::N; ++d) each_cat([&](auto c_) {
        constexpr cat C = c_.value;
        each_cat([&](auto d_) {
            constexpr cat D = d_.value;
            if constexpr ((C == RV || K::copyable) && (D == RV || K::copyable)) {
                for (int how = 0; how < 2; ++how) {
                    config cf(how ? "value_or_construct" : "value_or", cat_name[C], s, d + 10 * D);
                    O o = build<K>(s); T def = K::make(d);
                    MC_CHECK((same<decltype(as<C>(o).value_or(as<D>(def))), T>), "type of value_or");
                    MC_CHECK((same<decltype(as<C>(o).value_or_construct(as<D>(def))), T>), "type of value_or_construct");
                    clear_log(); mc::push(cat_name[D]); OP(value_or);
                    T r = how ? as<C>(o).value_or_construct(as<D>(def)) : as<C>(o).value_or(as<D>(def));
                    const int want = s >= 0 ? s : d;
                    if constexpr (K::logged) {
                        const log_t l = lg;
                        MC_CHECK(r.v == want, "value_or result");
                        const bool moved = s >= 0 ? C == RV : D == RV; // a const rvalue can only be copied
                        MC_CHECK(moved ? (l.cc == 0 && l.mc >= 1) : (l.cc == 1), "value_or copies lvalues and moves rvalues");
                        MC_CHECK(l.ca == 0 && l.ma == 0, "value_or assigns nothing");
                        if (s >= 0 && C == RV) MC_CHECK(o.has_value() && o->v == 77, "source moved from"); else in_state_checked<K>(o, s, "value_or changed the option");
                        MC_CHECK(def.v == (s < 0 && D == RV ? 77 : d), "default touched only when it is used");
                    } else {
                        MC_CHECK(is_value<K>(r, want), "value_or result");
                        MC_CHECK(o.has_value() == (s >= 0), "value_or changed the option's engagement");
                        if (!(s >= 0 && C == RV)) in_state_checked<K>(o, s, "value_or changed the option");
                        if (!(s < 0 && D == RV)) MC_CHECK(is_value<K>(def, d), "value_or touched the unused default");
                    }
                }
            }
        });
    });
}
struct two { int a, b; two(int x, int y) : a(x), b(y) {} two(std::initializer_list<int> l, int y) : a(int(l.size())), b(-y) {} bool operator==(const two& o) const { return a == o.a && b == o.b; } };
int main() {
    mc::init();
    all_kinds::each([](auto k) { accessors(k); });
    movable_kinds::each([](auto k) { value_or(k); });
    mc::set_ctx("conversions in value_or");
    for (int s = 0; s < 2; ++s) {
        config cf("value_or", "", s);
        { opt::option<std::string> o; if (s) o = "stored"; OP(value_or(const char*)); MC_CHECK(o.value_or("dflt") == (s ? "stored" : "dflt"), "default converted"); MC_CHECK(opt::option<std::string>(o).value_or("dflt") == (s ? "stored" : "dflt"), "default converted"); }
        { opt::option<long> o; if (s) o = 1L << 40; OP(value_or(int)); MC_CHECK(o.value_or(3) == (s ? 1L << 40 : 3), "no narrowing"); MC_CHECK((same<decltype(o.value_or(3)), long>), "type is T"); }
        { opt::option<unsigned char> o; if (s) o = 200; OP(value_or(300)); MC_CHECK(o.value_or(300) == (s ? 200 : 44), "default converted to T"); }
        { opt::option<const int> o = s ? opt::option<const int>(5) : opt::option<const int>(); OP(value_or); MC_CHECK(o.value_or(9) == (s ? 5 : 9), "const payload"); MC_CHECK((same<decltype(o.value_or(9)), int>), "const removed"); }
        { opt::option<std::vector<int>> o; if (s) o.emplace(2, 8); OP(value_or_construct ilist); MC_CHECK((o.value_or_construct({1, 2, 3}) == (s ? std::vector<int>{8, 8} : std::vector<int>{1, 2, 3})), "value_or_construct from initializer_list");
          MC_CHECK((std::move(o).value_or_construct({1, 2, 3}) == (s ? std::vector<int>{8, 8} : std::vector<int>{1, 2, 3})), "value_or_construct from initializer_list"); }
        { opt::option<std::vector<int>> o; if (s) o.emplace(2, 8); OP(value_or_construct args); MC_CHECK((o.value_or_construct(3, 1) == (s ? std::vector<int>{8, 8} : std::vector<int>{1, 1, 1})), "value_or_construct from arguments"); MC_CHECK((std::move(o).value_or_construct(3, 1) == (s ? std::vector<int>{8, 8} : std::vector<int>{1, 1, 1})), "value_or_construct from arguments"); }
        { opt::option<std::vector<int>> o; if (s) o.emplace(2, 8); OP(value_or_construct()); MC_CHECK((o.value_or_construct() == (s ? std::vector<int>{8, 8} : std::vector<int>{})), "value_or_construct without arguments"); }
        { opt::option<two> o; if (s) o.emplace(8, 9); OP(value_or_construct two); MC_CHECK((o.value_or_construct(1, 2) == (s ? two(8, 9) : two(1, 2))), "value_or_construct"); MC_CHECK((o.value_or_construct({7, 7, 7}, 2) == (s ? two(8, 9) : two(3, -2))), "value_or_construct ilist + args"); MC_CHECK((std::move(o).value_or_construct({7, 7, 7}, 2) == (s ? two(8, 9) : two(3, -2))), "value_or_construct ilist + args"); }
        { opt::option<AG> o; if (s) o.emplace(8, true); OP(value_or_construct aggregate); MC_CHECK((o.value_or_construct(1, false) == (s ? AG{8, true} : AG{1, false})), "value_or_construct of an aggregate"); }
        { opt::option<std::pair<int, bool>> o; if (s) o.emplace(8, true); OP(value_or_construct pair); MC_CHECK((o.value_or_construct(1, false) == (s ? std::pair<int, bool>{8, true} : std::pair<int, bool>{1, false})), "value_or_construct of a pair"); }
    }
    mc::set_ctx("option<const T>");
    for (int s = 0; s < 2; ++s) {
        config cf("const payload", "", s);
        opt::option<const std::string> o = s ? opt::option<const std::string>("xy") : opt::option<const std::string>();
        OP(access); MC_CHECK((same<decltype(o.get()), const std::string&> && same<decltype(std::move(o).get()), const std::string&&> && same<decltype(*o), const std::string&> && same<decltype(o.operator->()), const std::string*>), "const payload gives const access");
        MC_CHECK(o.has_value() == bool(s) && (!s || *o == "xy"), "const payload stored");
    }
    return mc::finish();
}
