// C26: recursive data structures linked by options.  Binary trees (lists among them) whose links are option<L<node>>, for several ways L to
// own a node; all sequences up to a depth of all operations that move, copy, swap or rebuild links, also between a link and
// the links below or above it, in lockstep with an explicit graph.
#include "mc.hpp"
#include <opt/option.hpp>
#include <memory>
#include <tuple>
#include <optional>

namespace {
long live;
template<class T> struct box { // deep copy, flag
    T* p;
    explicit box(T* x) : p(x) {}
    box(const box& o) : p(o.p ? new T(*o.p) : nullptr) {}
    box(box&& o) noexcept : p(o.p) { o.p = nullptr; }
    box& operator=(const box& o) { T* n = o.p ? new T(*o.p) : nullptr; T* d = p; p = n; delete d; return *this; }
    box& operator=(box&& o) noexcept { T* n = o.p; o.p = nullptr; T* d = p; p = n; delete d; return *this; }
    ~box() { delete p; }
};
enum kind { OWNS, COPIES, SHARES };
struct kU { template<class N> using L = std::unique_ptr<N>; static constexpr kind k = OWNS; static constexpr const char* name = "unique_ptr"; template<class N> static L<N> make(N&& n) { return std::make_unique<N>(std::move(n)); } template<class N> static N& at(L<N>& l) { return *l; } };
struct kS { template<class N> using L = std::shared_ptr<N>; static constexpr kind k = SHARES; static constexpr const char* name = "shared_ptr"; template<class N> static L<N> make(N&& n) { return std::make_shared<N>(std::move(n)); } template<class N> static N& at(L<N>& l) { return *l; } };
struct kB { template<class N> using L = box<N>; static constexpr kind k = COPIES; static constexpr const char* name = "copying box"; template<class N> static L<N> make(N&& n) { return box<N>(new N(std::move(n))); } template<class N> static N& at(L<N>& l) { return *l.p; } };
struct kV { template<class N> using L = std::vector<N>; static constexpr kind k = OWNS; static constexpr const char* name = "vector"; template<class N> static L<N> make(N&& n) { std::vector<N> v; v.reserve(1); v.push_back(std::move(n)); return v; } template<class N> static N& at(L<N>& l) { return l[0]; } };
struct kP { template<class N> using L = std::pair<int, std::unique_ptr<N>>; static constexpr kind k = OWNS; static constexpr const char* name = "pair<int, unique_ptr>"; template<class N> static L<N> make(N&& n) { return {7, std::make_unique<N>(std::move(n))}; } template<class N> static N& at(L<N>& l) { return *l.second; } };
struct kT { template<class N> using L = std::tuple<bool, std::unique_ptr<N>>; static constexpr kind k = OWNS; static constexpr const char* name = "tuple<bool, unique_ptr>"; template<class N> static L<N> make(N&& n) { return {true, std::make_unique<N>(std::move(n))}; } template<class N> static N& at(L<N>& l) { return *std::get<1>(l); } };
struct kO { template<class N> using L = opt::option<std::unique_ptr<N>>; static constexpr kind k = OWNS; static constexpr const char* name = "option<unique_ptr>"; template<class N> static L<N> make(N&& n) { return L<N>(std::make_unique<N>(std::move(n))); } template<class N> static N& at(L<N>& l) { return **l; } };
struct kQ { template<class N> using L = std::optional<box<N>>; static constexpr kind k = COPIES; static constexpr const char* name = "std::optional<copying box>"; template<class N> static L<N> make(N&& n) { return L<N>(box<N>(new N(std::move(n)))); } template<class N> static N& at(L<N>& l) { return *l->p; } };
struct kW { template<class N> struct L { int before; std::unique_ptr<N> p; }; static constexpr kind k = OWNS; static constexpr const char* name = "aggregate with a unique_ptr"; template<class N> static L<N> make(N&& n) { return {3, std::make_unique<N>(std::move(n))}; } template<class N> static N& at(L<N>& l) { return *l.p; } };

struct counted { counted() { ++live; } counted(const counted&) { ++live; } counted& operator=(const counted&) = default; ~counted() { --live; } };
template<class K> struct node : counted {
    using L = typename K::template L<node>; using O = opt::option<L>;
    int v; O l, r;
    node(int x, O&& a, O&& b) : v(x), l(std::move(a)), r(std::move(b)) { }
    node(const node&) = default;
    node(node&& o) noexcept : counted(), v(o.v), l(o.l.take()), r(o.r.take()) { }
    node& operator=(node&& o) noexcept { auto a = o.l.take(), b = o.r.take(); v = o.v; l = std::move(a); r = std::move(b); return *this; }
    ~node() { v = -99; }
};
// ---- the explicit graph ----
struct mnode { int v, kid[2]; };
struct graph {
    std::vector<mnode> n; int head[2] = {-1, -1};
    int& slot(int owner, int which) { return owner < 0 ? head[which] : n[std::size_t(owner)].kid[which]; }
    bool reaches(int from, int to) const { return from >= 0 && to >= 0 && (from == to || reaches(n[std::size_t(from)].kid[0], to) || reaches(n[std::size_t(from)].kid[1], to)); }
    int clone(int x) { if (x < 0) return -1; const mnode m = n[std::size_t(x)]; const int a = clone(m.kid[0]), b = clone(m.kid[1]); n.push_back({m.v, {a, b}}); return int(n.size()) - 1; }
    int fresh(int v, int a, int b) { n.push_back({v, {a, b}}); return int(n.size()) - 1; }
    void mark(int x, std::vector<char>& m) const { if (x < 0 || m[std::size_t(x)]) return; m[std::size_t(x)] = 1; mark(n[std::size_t(x)].kid[0], m); mark(n[std::size_t(x)].kid[1], m); }
    long alive() const { std::vector<char> m(n.size()); mark(head[0], m); mark(head[1], m); long k = 0; for (char c : m) k += c; return k; }
};
struct pos { int owner, which; bool operator==(const pos& o) const { return owner == o.owner && which == o.which; } };

template<class K> struct world {
    using N = node<K>; using L = typename N::L; using O = opt::option<L>;
    O head[2]; graph g; int next_v = 10;
    static constexpr kind k = K::k;
    static O build(const graph& g, int x) { O o; if (x >= 0) { const mnode& m = g.n[std::size_t(x)]; o.emplace(K::make(N(m.v, build(g, m.kid[0]), build(g, m.kid[1])))); } return o; }
    explicit world(const graph& s) : head{build(s, s.head[0]), build(s, s.head[1])}, g(s) { }
    // every link up to two nodes below a head, with the real option
    void links(std::vector<pos>& p, std::vector<O*>& o) { for (int h = 0; h < 2; ++h) below(p, o, {-1, h}, head[h], 0); }
    void below(std::vector<pos>& p, std::vector<O*>& o, pos x, O& real, int depth) {
        for (const pos& y : p) if (y == x) return;
        p.push_back(x); o.push_back(&real);
        const int t = g.slot(x.owner, x.which);
        if (t < 0 || depth == 2) return;
        N& m = K::at(*real);
        below(p, o, {t, 0}, m.l, depth + 1); below(p, o, {t, 1}, m.r, depth + 1);
    }
    bool same(const O& o, int x) {
        if (o.has_value() != (x >= 0)) return false;
        if (x < 0) return o == opt::none && o.begin() == o.end() && o.ptr_or_null() == nullptr;
        const mnode& m = g.n[std::size_t(x)];
        const N& a = K::at(const_cast<L&>(*o));
        return a.v == m.v && same(a.l, m.kid[0]) && same(a.r, m.kid[1]);
    }
    void compare() {
        MC_CHECK(same(head[0], g.head[0]) && same(head[1], g.head[1]), "the structure differs from the model");
        MC_CHECK(live == (k == SHARES ? g.alive() : count(g.head[0]) + count(g.head[1])), "nodes leaked or destroyed early");
    }
    long count(int x) const { return x < 0 ? 0 : 1 + count(g.n[std::size_t(x)].kid[0]) + count(g.n[std::size_t(x)].kid[1]); }

    static constexpr int UNARY = 8, BINARY = 12;
    static const char* unary_name(int op) { static const char* const t[] = {"reset", "= none", "pop: = and_then(take the left)", "pop by take_if", "push in front", "= take", "try_emplace", "mirror"}; return t[op]; }
    static const char* binary_name(int op) { static const char* const t[] = {"= other.take()", "= move(other)", "= other", "swap", "emplace a node above other.take()", "= a node above other.take()", "= move(*other)", "= *other", "|= other.take()", "= other.take().or_else(this.take())", "a node over both", "= filtered move(other)"}; return t[op]; }
    // false: not applicable here
    bool unary(int op, pos x, O& p) {
        int& s = g.slot(x.owner, x.which); const int t = s;
        switch (op) {
        case 0: p.reset(); s = -1; return true;
        case 1: p = opt::none; s = -1; return true;
        case 2: p = p.take().and_then([](L&& l) -> O { return K::at(l).l.take(); });
            if (t >= 0) { const int n = g.n[std::size_t(t)].kid[0]; g.slot(x.owner, x.which) = n; if (k == SHARES) g.n[std::size_t(t)].kid[0] = -1; }
            return true;
        case 3: { bool odd = t >= 0 && g.n[std::size_t(t)].v % 2; auto o = p.take_if([](L& l) { return K::at(l).v % 2 != 0; }); if (o) p = K::at(*o).r.take(); if (odd) { const int n = g.n[std::size_t(t)].kid[1]; s = n; if (k == SHARES) g.n[std::size_t(t)].kid[1] = -1; } return true; }
        case 4: { const int v = next_v++; p.emplace(K::make(N(v, p.take(), O{}))); const int f = g.fresh(v, t, -1); g.slot(x.owner, x.which) = f; return true; }
        case 5: p = p.take(); return true;
        case 6: { const int v = next_v++; p.try_emplace(K::make(N(v, O{}, O{}))); if (t < 0) { const int f = g.fresh(v, -1, -1); g.slot(x.owner, x.which) = f; } return true; }
        case 7: if (t < 0) return false; { N& n = K::at(*p); n.l.swap(n.r); std::swap(g.n[std::size_t(t)].kid[0], g.n[std::size_t(t)].kid[1]); } return true;
        }
        return false;
    }
    bool binary(int op, pos x, O& p, pos y, O& q) {
        const int tp = g.slot(x.owner, x.which), tq = g.slot(y.owner, y.which);
        const bool self = x == y, q_below = g.reaches(tp, y.owner), p_below = g.reaches(tq, x.owner);
        // nothing may be made to contain itself; a copy may be stored below its original (for an empty link: if it is the link that knows it is empty)
        if (p_below && !(k == COPIES && (op == 2 || op == 7) && (tp >= 0 || K::name == kB::name))) return false;
        O guard; if constexpr (k == SHARES) guard = p; // keeps the owner of q
        const auto set = [&](pos z, int t) { g.slot(z.owner, z.which) = t; };
        switch (op) {
        case 0: p = q.take(); set(y, -1); set(x, tq); return true;
        case 1: if (self) return false;
            p = std::move(q); if (k == SHARES || !q_below) { q.reset(); set(y, -1); } set(x, tq); return true;
        case 2: case 7:
            if (op == 7 && tq < 0) return false;
            if constexpr (k == OWNS) return false;
            else { if (op == 2) p = q; else p = *q; const int c = k == COPIES ? g.clone(tq) : tq; set(x, c); return true; }
        case 3: if (q_below) return false; if (self) { p.swap(q); return true; } p.swap(q); set(x, tq); set(y, tp); return true;
        case 4: case 5: { const int v = next_v++; if (op == 4) p.emplace(K::make(N(v, q.take(), O{}))); else p = K::make(N(v, O{}, q.take())); set(y, -1); const int f = g.fresh(v, op == 4 ? tq : -1, op == 4 ? -1 : tq); set(x, f); return true; }
        case 6: if (self || tq < 0) return false;
            p = std::move(*q); if (k == SHARES || !q_below) { q.reset(); set(y, -1); } set(x, tq); return true;
        case 8: if (q_below) return false; p |= q.take(); set(y, -1); set(x, tp < 0 ? tq : tp); return true;
        case 9: if (q_below) return false; { O o = q.take().or_else([&] { return p.take(); }); p = std::move(o); } set(y, -1); set(x, tq >= 0 ? tq : tp); if (self) set(x, tq); return true;
        case 10: if (self || q_below) return false; { const int v = next_v++; O a = p.take(), b = q.take(); p = K::make(N(v, std::move(a), std::move(b))); set(y, -1); const int f = g.fresh(v, tp, tq); set(x, f); } return true;
        case 11: if (self || q_below) return false; { p = std::move(q).filter([](L& l) { return K::at(l).v % 2 == 0; }); q.reset(); const bool keep = tq >= 0 && g.n[std::size_t(tq)].v % 2 == 0; set(y, -1); set(x, keep ? tq : -1); } return true;
        }
        return false;
    }
};
template<class K> void replay_explore(const graph& init, int depth) {
    using W = world<K>;
    struct step { int op, p, q; };
    std::vector<step> path;
    // depth-first over all sequences; each is rerun from the initial structure, so that every state has its own history
    struct rec {
        static void go(const graph& init, std::vector<step>& path, int depth) {
            for (int op = 0; op < W::UNARY + W::BINARY; ++op) for (int i = 0;; ++i) {
                bool more = true;
                for (int j = 0;; ++j) {
                    if (op < W::UNARY && j) break;
                    bool ran = false, dry = false;
                    {
                        W w(init);
                        mc::depth = 0; mc::push("left links of the first", init.head[0]); mc::push("of the second", init.head[1]);
                        for (const step& s : path) run(w, s, dry);
                        std::vector<pos> ps; std::vector<typename W::O*> os; w.links(ps, os);
                        if (i >= int(ps.size())) { more = false; break; }
                        if (op >= W::UNARY && j >= int(ps.size())) break;
                        ran = run(w, {op, i, j}, dry);
                        if (ran) { w.compare(); ++mc::stats.transitions; ++mc::stats.traces; }
                    }
                    if (ran) { if (live != 0) { MC_CHECK(live == 0, "nodes leaked"); live = 0; } }
                    if (ran && depth > 1) { path.push_back({op, i, j}); go(init, path, depth - 1); path.pop_back(); }
                }
                if (!more) break;
            }
        }
        static bool run(W& w, const step& s, bool&) {
            std::vector<pos> ps; std::vector<typename W::O*> os; w.links(ps, os);
            const auto i = std::size_t(s.p), j = std::size_t(s.q);
            if (i >= ps.size() || j >= ps.size()) return false; // the structure went wrong before, and has been reported
            mc::push(s.op < W::UNARY ? W::unary_name(s.op) : W::binary_name(s.op - W::UNARY), s.op < W::UNARY ? s.p : s.p * 100 + s.q);
            return s.op < W::UNARY ? w.unary(s.op, ps[i], *os[i]) : w.binary(s.op - W::UNARY, ps[i], *os[i], ps[j], *os[j]);
        }
    };
    rec::go(init, path, depth);
    ++mc::stats.states;
}
// all binary trees of at most n nodes
void shapes(int n, std::vector<std::vector<mnode>>& out) {
    // a shape is generated as a list of nodes with the root last; sizes by recursion
    std::vector<std::vector<std::vector<mnode>>> by(std::size_t(n) + 1);
    by[0].push_back({});
    for (int s = 1; s <= n; ++s) for (int a = 0; a < s; ++a) for (const auto& x : by[std::size_t(a)]) for (const auto& y : by[std::size_t(s - 1 - a)]) {
        std::vector<mnode> t = x; const int o = int(x.size());
        for (mnode m : y) { for (int& c : m.kid) if (c >= 0) c += o; t.push_back(m); }
        t.push_back({s, {x.empty() ? -1 : o - 1, y.empty() ? -1 : o + int(y.size()) - 1}});
        by[std::size_t(s)].push_back(t);
    }
    for (const auto& b : by) for (const auto& t : b) out.push_back(t);
}
template<class K> void explore() {
    mc::set_ctx(K::name);
    const char* d = std::getenv("MC_DEPTH"); const int depth = d ? std::atoi(d) : 2;
    const char* e = std::getenv("MC_NODES"); const int nodes = e ? std::atoi(e) : 3;
    std::vector<std::vector<mnode>> a, b; shapes(nodes, a); shapes(1, b);
    for (const auto& x : a) for (const auto& y : b) {
        graph g; g.n = x; g.head[0] = x.empty() ? -1 : int(x.size()) - 1;
        for (mnode m : y) { m.v = 8; g.n.push_back(m); g.head[1] = int(g.n.size()) - 1; }
        replay_explore<K>(g, depth);
    }
    mc::sample(std::string(K::name) + ": trees of up to " + std::to_string(nodes) + " nodes and of one, all sequences of " + std::to_string(depth) + " operations on all pairs of links");
}
}
int main() {
    mc::init();
    explore<KIND>();
    return mc::finish();
}
