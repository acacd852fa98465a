// C24: [begin, end) of an option is a range of at most one element for every algorithm of the standard library: the same
// generic call on the option and on an ordinary container holding the same elements gives the same result, the same
// modifications and the same number of calls of the callable.
#include "mc.hpp"
#include <algorithm>
#include <deque>
#include <functional>
#include <iterator>
#include <numeric>
#include <string>
#include <vector>
#include <list>
#include <memory>
#if __cplusplus >= 202002L
    #include <ranges>
    #include <span>
    #include <compare>
#endif
#include <opt/option.hpp>

namespace {
int calls;
template<class I> auto e_size(I b, I e) { return e - b; }
template<class T> struct val; // T a object type: N values in increasing order
template<> struct val<int> { static int make(int i) { return i * 3 - 3; } static int plus(int a, int b) { return a + b; } };
template<> struct val<bool> { static bool make(int i) { return i != 0; } static bool plus(bool a, bool b) { return a || b; } };
template<> struct val<double> { static double make(int i) { return i * 1.5; } static double plus(double a, double b) { return a + b; } };
template<> struct val<std::string> { static std::string make(int i) { return std::string(std::size_t(i * 20), 'a'); } static std::string plus(const std::string& a, const std::string& b) { return a + b; } };
template<> struct val<opt::option<int>> { static opt::option<int> make(int i) { return i == 0 ? opt::option<int>{} : opt::option<int>{i}; } static opt::option<int> plus(opt::option<int> a, opt::option<int> b) { return b ? b : a; } };
struct amp { int v; amp* operator&() = delete; const amp* operator&() const = delete; template<class X> friend void operator,(const amp&, X&&) = delete;
    friend bool operator==(const amp& a, const amp& b) { return a.v == b.v; } friend bool operator!=(const amp& a, const amp& b) { return a.v != b.v; } friend bool operator<(const amp& a, const amp& b) { return a.v < b.v; }
    friend bool operator>(const amp& a, const amp& b) { return a.v > b.v; } friend bool operator<=(const amp& a, const amp& b) { return a.v <= b.v; } friend bool operator>=(const amp& a, const amp& b) { return a.v >= b.v; } };
template<> struct val<amp> { static amp make(int i) { return amp{i}; } static amp plus(amp a, amp b) { return amp{a.v + b.v}; } };

// what an algorithm returned, in a form that can be compared between the two ranges
template<class R, class B> auto norm(const R& r, const B& b) {
    if constexpr (std::is_same_v<R, B>) return r - b;
    else return r;
}
template<class X, class Y, class B> auto norm(const std::pair<X, Y>& r, const B& b) { return std::make_pair(norm(r.first, b), norm(r.second, b)); }

// run the same call on both ranges
template<class OB, class MB, class F>
void both(const char* name, OB ob, OB oe, MB mb, MB me, F f) {
    mc::scope s(name);
    ++mc::stats.transitions;
    calls = 0;
    const auto ro = norm(f(ob, oe), ob); const int co = calls;
    calls = 0;
    const auto rm = norm(f(mb, me), mb); const int cm = calls;
    MC_CHECK(ro == rm, "an algorithm gives another result than on an ordinary range");
    MC_CHECK(co == cm, "an algorithm calls the callable another number of times");
    MC_CHECK(oe - ob == me - mb && std::equal(ob, oe, mb, me), "the elements afterwards differ");
}
#define ALG(name, ...) both(name, ob, oe, mb, me, [&](auto b, auto e) { return __VA_ARGS__; })
#define ALGV(name, ...) both(name, ob, oe, mb, me, [&](auto b, auto e) { __VA_ARGS__; return 0; })
// with an output container, whose contents are the result
#define ALGO(name, ...) both(name, ob, oe, mb, me, [&](auto b, auto e) { std::vector<E, std::allocator<E>> out_; auto out = std::back_inserter(out_); __VA_ARGS__; return wrap<E>(out_); })
template<class E> struct wrapped { std::vector<E> v; friend bool operator==(const wrapped& a, const wrapped& b) { return std::equal(a.v.begin(), a.v.end(), b.v.begin(), b.v.end()); } };
template<class E> wrapped<E> wrap(const std::vector<E>& v) { return {v}; }

template<class E, class OB, class MB>
void reading(OB ob, OB oe, MB mb, MB me) {
    const auto lt = [](const E& a, const E& b) { ++calls; return a < b; };
    const auto eq = [](const E& a, const E& b) { ++calls; return a == b; };
    const auto plus = [](const E& a, const E& b) { ++calls; return val<E>::plus(a, b); };
    for (int k = 0; k < 3; ++k) {
        const E x = val<E>::make(k);
        const auto is = [&](const E& a) { ++calls; return a == x; };
        mc::scope sc("argument", k);
        ALG("all_of", std::all_of(b, e, is)); ALG("any_of", std::any_of(b, e, is)); ALG("none_of", std::none_of(b, e, is));
        ALG("for_each", (std::for_each(b, e, is), 0)); ALG("for_each_n", std::for_each_n(b, e - b, is));
        ALG("count", std::count(b, e, x)); ALG("count_if", std::count_if(b, e, is));
        ALG("find", std::find(b, e, x)); ALG("find_if", std::find_if(b, e, is)); ALG("find_if_not", std::find_if_not(b, e, is));
        ALG("search_n 1", std::search_n(b, e, 1, x)); ALG("search_n 2", std::search_n(b, e, 2, x, eq));
        ALG("lower_bound", std::lower_bound(b, e, x)); ALG("upper_bound", std::upper_bound(b, e, x, lt)); ALG("equal_range", std::equal_range(b, e, x)); ALG("binary_search", std::binary_search(b, e, x, lt));
        ALG("is_partitioned", std::is_partitioned(b, e, is)); ALG("partition_point", std::partition_point(b, e, is));
        ALGO("copy_if", std::copy_if(b, e, out, is)); ALGO("remove_copy", std::remove_copy(b, e, out, x)); ALGO("remove_copy_if", std::remove_copy_if(b, e, out, is));
        ALGO("replace_copy", std::replace_copy(b, e, out, x, val<E>::make(1))); ALGO("replace_copy_if", std::replace_copy_if(b, e, out, is, val<E>::make(2)));
        ALGO("partition_copy", std::vector<E> other; std::partition_copy(b, e, out, std::back_inserter(other), is); out_.insert(out_.end(), other.begin(), other.end()));
        std::vector<E> one(1, x), two(2, x), none;
        for (auto* w : {&one, &two, &none}) {
            const auto wb = w->begin(), we = w->end();
            ALG("equal", std::equal(b, e, wb, we)); ALG("equal (pred)", std::equal(wb, we, b, e, eq));
            ALG("lexicographical_compare", std::lexicographical_compare(b, e, wb, we)); ALG("lexicographical_compare (rev)", std::lexicographical_compare(wb, we, b, e, lt));
            ALG("mismatch", std::mismatch(b, e, wb, we).first); ALG("search", std::search(b, e, wb, we)); ALG("find_end", std::find_end(b, e, wb, we, eq)); ALG("find_first_of", std::find_first_of(b, e, wb, we));
            ALG("is_permutation", std::is_permutation(b, e, wb, we, eq)); ALG("includes", std::includes(b, e, wb, we, lt));
            ALG("includes (rev)", std::includes(wb, we, b, e));
            ALGO("merge", std::merge(b, e, wb, we, out, lt)); ALGO("set_union", std::set_union(b, e, wb, we, out)); ALGO("set_intersection", std::set_intersection(b, e, wb, we, out));
            ALGO("set_difference", std::set_difference(b, e, wb, we, out)); ALGO("set_symmetric_difference", std::set_symmetric_difference(b, e, wb, we, out));
            if (e_size(wb, we) >= oe - ob) { ALGO("transform 2", std::transform(b, e, wb, out, plus)); ALG("inner_product", std::inner_product(b, e, wb, x, plus, plus)); ALG("transform_reduce 2", std::transform_reduce(b, e, wb, x, plus, plus)); }
        }
        ALG("accumulate", std::accumulate(b, e, x, plus)); ALG("reduce", std::reduce(b, e, x, plus)); ALG("transform_reduce", std::transform_reduce(b, e, x, plus, [](const E& a) { ++calls; return a; }));
        ALGO("inclusive_scan", std::inclusive_scan(b, e, out, plus, x)); ALGO("exclusive_scan", std::exclusive_scan(b, e, out, x, plus)); ALGO("transform_exclusive_scan", std::transform_exclusive_scan(b, e, out, x, plus, [](const E& a) { return a; }));
    }
    ALG("adjacent_find", std::adjacent_find(b, e)); ALG("is_sorted", std::is_sorted(b, e, lt)); ALG("is_sorted_until", std::is_sorted_until(b, e)); ALG("is_heap", std::is_heap(b, e)); ALG("is_heap_until", std::is_heap_until(b, e, lt));
    ALG("min_element", std::min_element(b, e)); ALG("max_element", std::max_element(b, e, lt)); ALG("minmax_element", std::minmax_element(b, e));
    ALGO("copy", std::copy(b, e, out)); ALGO("copy_n", std::copy_n(b, e - b, out)); ALGO("copy_backward", out_.resize(std::size_t(e - b), val<E>::make(0)); std::copy_backward(b, e, out_.end())); ALGO("reverse_copy", std::reverse_copy(b, e, out));
    ALGO("rotate_copy", std::rotate_copy(b, b, e, out)); ALGO("unique_copy", std::unique_copy(b, e, out)); ALGO("transform", std::transform(b, e, out, [](const E& a) { ++calls; return val<E>::plus(a, val<E>::make(1)); }));
    ALGO("partial_sum", std::partial_sum(b, e, out, plus)); ALGO("adjacent_difference", std::adjacent_difference(b, e, out, plus)); ALGO("inclusive_scan", std::inclusive_scan(b, e, out, plus)); ALGO("partial_sort_copy", out_.resize(2, val<E>::make(0)); std::partial_sort_copy(b, e, out_.begin(), out_.end()));
    ALGO("assign", out_.assign(b, e)); ALGO("insert", out_.insert(out_.begin(), b, e); out_.insert(out_.end(), b, e)); ALGO("construct", std::vector<E> c(b, e); std::list<E> d(b, e); std::deque<E> q(b, e); out_ = c; out_.insert(out_.end(), d.begin(), d.end()); out_.insert(out_.end(), q.begin(), q.end()));
    ALGO("reverse_iterator", using R = std::reverse_iterator<decltype(b)>; std::copy(R(e), R(b), out));
    ALG("distance, next, prev", std::distance(b, e) * 100 + (std::next(b, e - b) == e) * 10 + (std::prev(e, e - b) == b));
    ALGV("advance", auto i = b; std::advance(i, e - b); calls += i == e);
    // a temporary of the value type, as generic code makes
    ALGO("value_type temporaries", using V = typename std::iterator_traits<decltype(b)>::value_type; for (; b != e; ++b) { V t(*b); t = *b; t = val<E>::make(1); *out = t; });
}
template<class E, class OB, class MB, class Reset>
void writing(OB ob, OB oe, MB mb, MB me, Reset reset) {
    const auto lt = [](const E& a, const E& b) { ++calls; return a < b; };
#define MUT(name, ...) reset(); ALG(name, __VA_ARGS__)
#define MUTV(name, ...) reset(); ALGV(name, __VA_ARGS__)
    for (int k = 0; k < 3; ++k) {
        const E x = val<E>::make(k), y = val<E>::make(2);
        const auto is = [&](const E& a) { ++calls; return a == x; };
        mc::scope sc("argument", k);
        MUTV("fill", std::fill(b, e, x)); MUTV("fill_n", std::fill_n(b, e - b, x)); MUTV("generate", std::generate(b, e, [&] { ++calls; return x; })); MUTV("generate_n", std::generate_n(b, e - b, [&] { ++calls; return x; }));
        MUTV("replace", std::replace(b, e, x, y)); MUTV("replace_if", std::replace_if(b, e, is, y)); MUTV("for_each", std::for_each(b, e, [&](E& a) { ++calls; a = x; }));
        MUTV("transform", std::transform(b, e, b, [](const E& a) { return val<E>::plus(a, val<E>::make(1)); }));
        MUT("partition", std::partition(b, e, is)); MUT("stable_partition", std::stable_partition(b, e, is));
        MUT("remove", std::remove(b, e, x)); MUT("remove_if", std::remove_if(b, e, is));
        std::vector<E> w(1, x), w2(1, x);
        reset(); both("swap_ranges", ob, oe, mb, me, [&](auto b, auto e) { std::vector<E> o(std::size_t(e - b), x); std::swap_ranges(b, e, o.begin()); return wrap<E>(o); });
        reset(); both("copy into", ob, oe, mb, me, [&](auto b, auto e) { std::vector<E> o(std::size_t(e - b), x); return std::copy(o.begin(), o.end(), b); });
        reset(); both("move into", ob, oe, mb, me, [&](auto b, auto e) { std::vector<E> o(std::size_t(e - b), x); return std::move(o.begin(), o.end(), b); });
        reset(); both("copy_backward into", ob, oe, mb, me, [&](auto b, auto e) { std::vector<E> o(std::size_t(e - b), x); return std::copy_backward(o.begin(), o.end(), e); });
        reset(); both("iter_swap", ob, oe, mb, me, [&](auto b, auto e) { E t = x; if (b != e) std::iter_swap(b, std::addressof(t)); return wrap<E>({t}); });
    }
    MUTV("sort", std::sort(b, e, lt)); MUTV("stable_sort", std::stable_sort(b, e)); MUTV("partial_sort", std::partial_sort(b, e, e)); MUTV("nth_element", std::nth_element(b, b, e)); MUTV("inplace_merge", std::inplace_merge(b, b, e));
    MUTV("make_heap", std::make_heap(b, e)); MUTV("sort_heap", std::sort_heap(b, e)); MUTV("push_heap", if (b != e) std::push_heap(b, e)); MUTV("pop_heap", if (b != e) std::pop_heap(b, e));
    MUTV("reverse", std::reverse(b, e)); MUT("rotate", std::rotate(b, b, e)); MUT("unique", std::unique(b, e)); MUT("next_permutation", std::next_permutation(b, e)); MUT("prev_permutation", std::prev_permutation(b, e));
    MUTV("partial_sum", std::partial_sum(b, e, b, [](const E& p, const E& q) { return val<E>::plus(p, q); }));
    if constexpr (std::is_same_v<E, int>) { MUTV("iota", std::iota(b, e, 5)); }
    reset(); both("move out", ob, oe, mb, me, [&](auto b, auto e) { std::vector<E> o; std::move(b, e, std::back_inserter(o)); std::fill(b, e, val<E>::make(1)); return wrap<E>(o); });
    reset(); both("move_iterator", ob, oe, mb, me, [&](auto b, auto e) { std::vector<E> o(std::make_move_iterator(b), std::make_move_iterator(e)); std::fill(b, e, val<E>::make(1)); return wrap<E>(o); });
    reset(); both("uninitialized_copy/move", ob, oe, mb, me, [&](auto b, auto e) { std::allocator<E> al; E* m = al.allocate(2); E* n = std::uninitialized_copy(b, e, m); n = std::uninitialized_move(b, e, n); std::vector<E> o; if (m != n) o.assign(m, m + 1); std::destroy(m, n); al.deallocate(m, 2); std::fill(b, e, val<E>::make(1)); return wrap<E>(o); });
    reset(); both("destroy and construct again", ob, oe, mb, me, [&](auto b, auto e) { const auto n = e - b; std::destroy(b, e); std::uninitialized_fill(b, b + n, val<E>::make(2)); std::destroy_n(b, n); std::uninitialized_fill_n(b, n, val<E>::make(1)); return 0; });
    reset();
}
#if __cplusplus >= 202002L
template<class E, class O, class D>
void cxx20(O& o, D& d) {
    using It = decltype(o.begin());
    MC_CHECK(std::contiguous_iterator<It>, "the iterators are contiguous iterators");
    MC_CHECK(std::ranges::contiguous_range<O> && std::ranges::sized_range<O> && std::ranges::common_range<O>, "an option is a contiguous, sized and common range");
    MC_CHECK((std::same_as<std::iter_value_t<It>, E> && std::same_as<std::iter_difference_t<It>, std::ptrdiff_t>), "value and difference type");
    MC_CHECK((std::same_as<std::remove_cvref_t<std::ranges::range_value_t<O>>, E>), "range value type");
    if constexpr (std::ranges::contiguous_range<O>) {
        const auto n = std::ranges::size(d);
        ++mc::stats.transitions;
        MC_CHECK(std::ranges::size(o) == n && std::ranges::empty(o) == (n == 0) && std::ranges::distance(o) == std::ptrdiff_t(n), "size");
        if (n) MC_CHECK(std::ranges::data(o) == std::to_address(o.begin()) && std::ranges::data(o) == o.ptr_or_null(), "data");
        namespace vw = std::views; // (option | view is the operator of the library)
        MC_CHECK(std::ranges::equal(o, d) && std::ranges::equal(vw::reverse(o), d) && std::ranges::equal(std::ranges::subrange(o.begin(), o.end()), d), "equal ranges");
        std::span<std::remove_reference_t<decltype(*o.begin())>> sp(o); MC_CHECK(sp.size() == n && (n == 0 || sp.data() == o.ptr_or_null()), "span");
        for (int k = 0; k < 3; ++k) {
            const E x = val<E>::make(k);
            const auto is = [&](const E& a) { return a == x; };
            MC_CHECK(std::ranges::count(o, x) == std::ranges::count(d, x) && (std::ranges::find(o, x) - o.begin()) == (std::ranges::find(d, x) - d.begin()), "ranges::count/find");
            MC_CHECK(std::ranges::equal(vw::filter(o, is), vw::filter(d, is)), "views::filter");
            MC_CHECK(std::ranges::equal(vw::transform(o, [&](const E& a) { return val<E>::plus(a, x); }), vw::transform(d, [&](const E& a) { return val<E>::plus(a, x); })), "views::transform");
            MC_CHECK(std::ranges::equal(vw::take(o, k), vw::take(d, k)) && std::ranges::equal(vw::drop(o, k), vw::drop(d, k)), "views::take/drop");
            MC_CHECK(std::ranges::equal(vw::take_while(o, is), vw::take_while(d, is)) && std::ranges::equal(vw::drop_while(o, is), vw::drop_while(d, is)), "views::take_while/drop_while");
            MC_CHECK(std::ranges::equal(vw::common(o), d) && std::ranges::equal(vw::all(o), d) && std::ranges::equal(vw::counted(o.begin(), std::ptrdiff_t(n)), d), "views::common/all/counted");
            std::vector<E> out; std::ranges::copy(o, std::back_inserter(out)); MC_CHECK(std::ranges::equal(out, d), "ranges::copy");
        }
    }
}
#endif

// the requirements on random access iterators, for every pair of positions and every way to get from one to the other
template<class I> void laws(I b, I e, std::ptrdiff_t n, const void* element) {
    mc::scope sc("iterator operations");
    const auto a = [](const I& it) { return static_cast<const void*>(std::addressof(*it)); };
    const auto at = [&](std::ptrdiff_t i) { return b + i; };
    MC_CHECK(e - b == n && b - e == -n && at(n) == e && e - n == b && n + b == e, "distance");
    for (std::ptrdiff_t i = 0; i <= n; ++i) for (std::ptrdiff_t j = 0; j <= n; ++j) {
        mc::scope s1("position", i), s2("position", j);
        ++mc::stats.transitions;
        const I p = at(i), q = at(j);
        MC_CHECK((p == q) == (i == j) && (p != q) == (i != j) && (p < q) == (i < j) && (p > q) == (i > j) && (p <= q) == (i <= j) && (p >= q) == (i >= j), "comparison of iterators");
        MC_CHECK(q - p == j - i && p + (j - i) == q && (j - i) + p == q && q - (j - i) == p, "iterator arithmetic");
        I x = p; I& r1 = x += j - i; MC_CHECK(&r1 == &x && x == q, "+="); I& r2 = x -= j - i; MC_CHECK(&r2 == &x && x == p, "-=");
        if (i == j) { x += 0; x -= 0; MC_CHECK(x == p && p + 0 == p && p - 0 == p && 0 + p == p, "adding zero"); }
        if (j == i + 1) {
            I y = p; I& r3 = ++y; MC_CHECK(&r3 == &y && y == q, "++it");
            y = p; const I z = y++; MC_CHECK(z == p && y == q, "it++");
            y = p; MC_CHECK(a(y) == element, "*it"); const void* w = static_cast<const void*>(std::addressof(*y++)); MC_CHECK(w == element && y == q, "*it++");
        }
        if (j == i - 1) {
            I y = p; I& r3 = --y; MC_CHECK(&r3 == &y && y == q, "--it");
            y = p; const I z = y--; MC_CHECK(z == p && y == q, "it--");
            MC_CHECK(static_cast<const void*>(std::addressof(p[-1])) == element && a(std::prev(p)) == element, "it[-1]");
        }
        if (j < n) { MC_CHECK(a(q) == element && static_cast<const void*>(std::addressof(p[j - i])) == element && static_cast<const void*>(std::addressof(*q.operator->())) == element, "dereference"); }
        I t = p, u = q; std::swap(t, u); MC_CHECK(t == q && u == p, "swap of iterators"); t = u; MC_CHECK(t == p, "assignment of iterators");
        std::reverse_iterator<I> rp(p), rq(q); MC_CHECK((rp < rq) == (i > j) && (rp >= rq) == (i <= j) && rq - rp == i - j && rp + (i - j) == rq && rp.base() == p, "reverse_iterator");
        if (i) { MC_CHECK(static_cast<const void*>(std::addressof(*rp)) == element && static_cast<const void*>(std::addressof(rq[j - i])) == element, "*reverse_iterator"); }
    }
    I d1{}, d2 = I(); MC_CHECK(d1 == d2 && !(d1 != d2), "value-initialised iterators");
    static_assert(std::is_default_constructible_v<I> && std::is_copy_constructible_v<I> && std::is_copy_assignable_v<I> && std::is_trivially_copyable_v<I>);
    using T = std::iterator_traits<I>;
    MC_CHECK((std::is_same_v<typename T::difference_type, std::ptrdiff_t> && std::is_same_v<typename T::value_type, std::remove_cv_t<std::remove_reference_t<typename T::reference>>>
        && std::is_same_v<typename T::reference, decltype(*b)> && std::is_same_v<decltype(b[0]), decltype(*b)> && std::is_same_v<decltype(b.operator->()), typename T::pointer>
        && std::is_base_of_v<std::random_access_iterator_tag, typename T::iterator_category>), "types of the iterator");
#if __cplusplus >= 202002L
    MC_CHECK((std::contiguous_iterator<I> && std::sized_sentinel_for<I, I>), "concepts of the iterator");
    if (n) MC_CHECK(static_cast<const void*>(std::to_address(b)) == element && std::to_address(b) + 1 == std::to_address(e), "to_address");
#endif
}
template<class E, class O, class MkO>
void type(const char* name, MkO mk) { // mk(engaged, value number, slot): an option and the object it refers to if it is one of references
    using W = std::remove_reference_t<typename O::value_type>;
    for (int s = -1; s < 3; ++s) {
        mc::set_ctx(name); mc::clear(); mc::push(s < 0 ? "empty" : "value", s);
        ++mc::stats.states;
        E slot = val<E>::make(s < 0 ? 0 : s);
        O o = mk(s >= 0, slot);
        std::deque<E> d; if (s >= 0) d.push_back(slot);
        const O& co = o; const std::deque<E>& cd = d;
        const void* const element = s >= 0 ? static_cast<const void*>(std::addressof(*o)) : nullptr;
        laws(o.begin(), o.end(), s >= 0, element); laws(co.begin(), co.end(), s >= 0, element);
        typename O::const_iterator ci = o.begin(), ce = o.end(); MC_CHECK(ci == co.begin() && ce == co.end() && ce - ci == (s >= 0), "conversion to a const iterator");
        reading<E>(co.begin(), co.end(), cd.begin(), cd.end());
        reading<E>(o.begin(), o.end(), d.begin(), d.end());
        if constexpr (!std::is_const_v<W>) {
            writing<E>(o.begin(), o.end(), d.begin(), d.end(), [&] { if (s >= 0) { *o = val<E>::make(s); d[0] = val<E>::make(s); } });
        }
#if __cplusplus >= 202002L
        cxx20<E>(o, d); cxx20<E>(co, cd);
#endif
        int n = 0; for (auto&& x : o) { n += x == val<E>::make(s); } for (const auto& x : co) { n += x == val<E>::make(s); } MC_CHECK(n == 2 * (s >= 0), "range for");
        ++mc::stats.traces;
    }
}
template<class E> void types(const char* v, const char* r, const char* c) {
    type<E, opt::option<E>>(v, [](bool on, E& s) { opt::option<E> o; if (on) o.emplace(s); return o; });
    type<E, opt::option<E&>>(r, [](bool on, E& s) { opt::option<E&> o; if (on) o.emplace(s); return o; });
    mc::sample(std::string(v) + ": engaged and empty, const and non-const, as a value, a reference and a const value, every algorithm");
    type<E, opt::option<const E>>(c, [](bool on, E& s) { return on ? opt::option<const E>(std::in_place, s) : opt::option<const E>(); });
}
// options inside ranges: the join of a range of options is the sequence of the values
#if __cplusplus >= 202002L
template<class E> void joined(const char* name) {
    for (int len = 0; len <= 4; ++len) {
        int total = 1; for (int i = 0; i < len; ++i) total *= 4;
        for (int c = 0; c < total; ++c) {
            mc::set_ctx(name, "views::join"); mc::clear(); mc::push("length", len); mc::push("elements", c);
            ++mc::stats.states; ++mc::stats.traces;
            std::vector<opt::option<E>> v; std::vector<E> want;
            for (int i = 0, k = c; i < len; ++i, k /= 4) { if (k % 4 == 3) v.emplace_back(); else { v.emplace_back(val<E>::make(k % 4)); want.push_back(val<E>::make(k % 4)); } }
            std::vector<E> got; for (auto&& x : v | std::views::join) { got.push_back(x); ++mc::stats.transitions; }
            MC_CHECK(std::ranges::equal(got, want), "views::join over options");
            const auto& cv = v; got.clear(); for (auto&& x : cv | std::views::join | std::views::reverse) got.insert(got.begin(), x);
            MC_CHECK(std::ranges::equal(got, want), "views::join and reverse over options");
            auto f = v | std::views::filter([](const opt::option<E>& o) { return o.has_value(); }) | std::views::transform([](const opt::option<E>& o) -> const E& { return *o; });
            MC_CHECK(std::ranges::equal(f, want), "filter and transform over options");
        }
    }
}
#endif
}

int main() {
    mc::init();
#if PART == 0
    types<int>("int", "int&", "const int"); types<bool>("bool", "bool&", "const bool");
#elif PART == 1
    types<double>("double", "double&", "const double"); types<std::string>("string", "string&", "const string");
#else
    types<opt::option<int>>("option<int>", "option<int>&", "const option<int>"); types<amp>("overloaded &", "overloaded & &", "const overloaded &");
#endif
#if __cplusplus >= 202002L && PART == 0
    joined<int>("int"); joined<bool>("bool"); joined<std::string>("string"); joined<double>("double");
#endif
    return mc::finish();
}
