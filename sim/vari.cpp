// The vari world (C10): histories of dynamically stored choices and optionals whose contents keep account of every
// construction and destruction and throw at chosen points, next to a model with the semantics of std::variant and
// std::optional. The real code: DynamicVariant, DynamicVariantHelpers, DynamicOptional, Choice, Optional.
#include "fast_ber/ber_types/All.hpp"

#include "core.hpp"
#include "reg.hpp"

#include <memory>

using namespace fast_ber;

namespace
{
struct Boom
{
};
Ctx*     g_ctx     = nullptr;
bool     g_armed   = false;
uint64_t g_point   = 0, g_throw_at = 0;
bool     g_thrown  = false;
int64_t  g_live[8] = {};
const int KINDS = 8;

[[noreturn]] void bad(const char* kind, const std::string& s) { g_ctx->fail(kind, "%s", s.c_str()); }
// A place where an object's own code may fail
void point()
{
    if (g_armed && ++g_point == g_throw_at) { g_thrown = true; throw Boom(); }
}
std::string g_broken; // found where it cannot be reported
const uint64_t ALIVE = 0xA11FE0A11FE0ull, DEAD = 0xDEADDEADull;

// An alternative which knows whether it exists
template <int K, bool nothrow_move = (K % 2 == 0)> struct T
{
    static const int kind = K;
    using AsnId           = Id<Class::context_specific, K>;
    uint64_t magic;
    int      v;
    void born() { magic = ALIVE + K; g_live[K]++; }
    void alive(const char* what) const { if (magic != ALIVE + K && g_broken.empty()) g_broken = std::string(what) + " of an object which does not exist"; }
    T() noexcept : v(0) { born(); }
    explicit T(int x) : v(x) { point(); born(); }
    T(int x, int y) : v(x * 1000 + y) { point(); born(); }
    T(std::initializer_list<int> l, int y) : v(y) { for (int i : l) v += i; point(); born(); }
    T(const T& o) : v(o.v) { o.alive("copy"); point(); born(); }
    T(T&& o) noexcept(nothrow_move) : v(o.v) { o.alive("move"); if (!nothrow_move) point(); born(); o.v = -7; }
    T& operator=(const T& o) { alive("assignment"); o.alive("assignment"); point(); v = o.v; return *this; }
    T& operator=(T&& o) noexcept(nothrow_move)
    {
        alive("assignment"); o.alive("assignment");
        if (!nothrow_move) point();
        if (this != &o) { v = o.v; o.v = -7; }
        return *this;
    }
    ~T()
    {
        alive("destruction");
        magic = DEAD;
        g_live[K]--;
    }
};
#define CMP(op) template <int K, bool n> bool operator op(const T<K, n>& a, const T<K, n>& b) { a.alive("comparison"); b.alive("comparison"); return a.v op b.v; }
CMP(==) CMP(!=) CMP(<) CMP(>) CMP(<=) CMP(>=)
#undef CMP

struct Only : T<6> // cannot be copied
{
    using T<6>::T;
    Only() = default;
    Only(Only&&) = default;
    Only& operator=(Only&&) = default;
    Only(const Only&) = delete;
};

struct M // model: what a variant, optional or element holds
{
    int            alt = -1; // -1: valueless or empty
    int            v   = 0;
    std::vector<M> kids;
    bool operator==(const M& o) const { return alt == o.alt && (alt < 0 || (v == o.v && kids == o.kids)); }
    std::string str() const
    {
        if (alt < 0) return "-";
        std::string s = std::to_string(alt) + ":" + std::to_string(v);
        if (kids.empty()) return s;
        s += "(";
        for (auto& k : kids) s += k.str() + " ";
        return s + ")";
    }
};
int order(const M& a, const M& b) // valueless before all others, then by alternative, then by value
{
    if (a.alt != b.alt) return a.alt < b.alt ? -1 : 1;
    if (a.alt < 0) return 0;
    if (a.v != b.v) return a.v < b.v ? -1 : 1;
    for (size_t i = 0; i < a.kids.size() && i < b.kids.size(); i++) if (int o = order(a.kids[i], b.kids[i])) return o;
    return a.kids.size() == b.kids.size() ? 0 : a.kids.size() < b.kids.size() ? -1 : 1;
}
struct Quiet // the harness's own dealings with contents do not fail
{
    bool was = g_armed, on = g_alloc.on;
    Quiet() { g_armed = false; g_alloc.on = false; }
    ~Quiet() { g_armed = was; g_alloc.on = on; }
};

struct Node; // a choice of a recursive type
using RV = dynamic::DynamicVariant<T<0>, Node, T<3>>;
struct Rec;
using RO = Optional<Rec, StorageMode::dynamic>;
struct RC;

struct Node
{
    static const int kind = 1;
    T<1>             t;
    std::vector<RV>  kids;
    Node() {}
    explicit Node(int x) : t(x) {}
    Node(int x, int y) : t(x, y) {}
    Node(std::initializer_list<int> l, int y) : t(l, y) {}
};
struct Rec
{
    using AsnId           = Id<Class::context_specific, 2>;
    static const int kind = 2;
    T<2>             t;
    RO               next;
    Rec() {}
    explicit Rec(int x) : t(x) {}
    Rec(int x, int y) : t(x, y) {}
};
using RCB = Choice<Choices<T<0>, RC, T<5>>, Id<Class::context_specific, 9>, StorageMode::dynamic>;
struct RC // as the compiler generates it: a member of a choice which refers to the choice
{
    using AsnId           = Id<Class::context_specific, 4>;
    static const int kind = 4;
    T<4>             t;
    std::vector<RCB> kids;
    RC() {}
    explicit RC(int x) : t(x) {}
    RC(int x, int y) : t(x, y) {}
    RC(std::initializer_list<int> l, int y) : t(l, y) {}
};
template <class N> bool node_less(const N& a, const N& b)
{
    if (a.t != b.t) return a.t < b.t;
    for (size_t i = 0; i < a.kids.size() && i < b.kids.size(); i++)
    {
        if (a.kids[i] < b.kids[i]) return true;
        if (b.kids[i] < a.kids[i]) return false;
    }
    return a.kids.size() < b.kids.size();
}
#define NODE(N)                                                                               \
    bool operator==(const N& a, const N& b) { return a.t == b.t && a.kids == b.kids; }        \
    bool operator!=(const N& a, const N& b) { return !(a == b); }                             \
    bool operator<(const N& a, const N& b) { return node_less(a, b); }                        \
    bool operator>(const N& a, const N& b) { return node_less(b, a); }                        \
    bool operator<=(const N& a, const N& b) { return !node_less(b, a); }                      \
    bool operator>=(const N& a, const N& b) { return !node_less(a, b); }
} // namespace
// found by argument dependent lookup from within the library
namespace
{
NODE(Node)
NODE(RC)
bool operator==(const Rec& a, const Rec& b) { return a.t == b.t && a.next == b.next; }
bool operator!=(const Rec& a, const Rec& b) { return !(a == b); }

using fast_ber::get;
using fast_ber::get_if;
using fast_ber::holds_alternative;
using fast_ber::dynamic::get;
using fast_ber::dynamic::get_if;
using fast_ber::dynamic::holds_alternative;

template <class V> struct Is; // what there is to know about a variant
template <class... Ts> struct Is<dynamic::DynamicVariant<Ts...>>
{
    static const size_t n = sizeof...(Ts);
    template <size_t i> using At = dynamic::detail::TypeAtIndex<i, Ts...>;
    template <size_t i> using InIndex = dynamic::in_place_index_t<i>;
    template <class X> using InType = dynamic::in_place_type_t<X>;
    using Bad = dynamic::BadVariantAccess;
    template <class X> using Once = dynamic::detail::ExactlyOnce<X, Ts...>;
    template <class F, class V> static auto visit(F f, V& v) -> decltype(dynamic::visit(f, v)) { return dynamic::visit(f, v); }
};
template <StorageMode s> struct BadOf { using type = dynamic::BadVariantAccess; };
template <> struct BadOf<StorageMode::static_> { using type = absl::bad_variant_access; };
template <class... Ts, class I, StorageMode s> struct Is<Choice<Choices<Ts...>, I, s>>
{
    static const size_t n = sizeof...(Ts);
    template <size_t i> using At = dynamic::detail::TypeAtIndex<i, Ts...>;
    template <size_t i> using InIndex = fast_ber::in_place_index_t<i>;
    template <class X> using InType = fast_ber::in_place_type_t<X>;
    using Bad = typename BadOf<s>::type;
    template <class X> using Once = dynamic::detail::ExactlyOnce<X, Ts...>;
    template <class F, class V> static auto visit(F f, V& v) -> decltype(fast_ber::visit(f, static_cast<const V&>(v))) { return fast_ber::visit(f, static_cast<const V&>(v)); }
};
template <size_t i> using Ix = std::integral_constant<size_t, i>;
// f(Ix<k>) for the k-th alternative
template <class V, size_t i, class F> typename std::enable_if<(i >= Is<V>::n)>::type nth(size_t, F&&) {}
template <class V, size_t i, class F> typename std::enable_if<(i < Is<V>::n)>::type nth(size_t k, F&& f)
{
    if (k == i) f(Ix<i>());
    else nth<V, i + 1>(k, f);
}

// ---------------------------------------------------------------------------------- between elements and their models
template <int K, bool n> void read(const T<K, n>& t, M& m, int64_t* live)
{
    if (t.magic != ALIVE + K) bad("lifetime", "holds an object which does not exist");
    m.v = t.v;
    live[K]++;
}
template <class V, class = decltype(Is<V>::n)> void read(const V& v, M& m, int64_t* live);
template <class N, class = decltype(N::kind), class = decltype(std::declval<N>().kids)> void read(const N& n, M& m, int64_t* live, int = 0)
{
    read(n.t, m, live);
    for (auto& k : n.kids) { m.kids.emplace_back(); read(k, m.kids.back(), live); }
}
template <class X, StorageMode s> void read(const Optional<X, s>& o, M& m, int64_t* live);
template <class X> void read(const DynamicOptional<X>& o, M& m, int64_t* live);
void read(const Rec& n, M& m, int64_t* live)
{
    read(n.t, m, live);
    m.kids.emplace_back();
    read(n.next, m.kids.back(), live);
}
template <class X, StorageMode s> void read(const Optional<X, s>& o, M& m, int64_t* live)
{
    m.alt = o.has_value() ? 0 : -1;
    if (o.has_value()) read(*o, m, live);
}
template <class X> void read(const DynamicOptional<X>& o, M& m, int64_t* live)
{
    m.alt = o.has_value() ? 0 : -1;
    if (o.has_value()) read(*o, m, live);
}
template <class V> struct Reader
{
    const V& v;
    M&       m;
    int64_t* live;
    template <size_t i> void operator()(Ix<i>) { read(get<i>(v), m, live); }
};
template <class V, class> void read(const V& v, M& m, int64_t* live)
{
    m.alt = v.valueless_by_exception() ? -1 : (int)v.index();
    if (m.alt >= (int)Is<V>::n) bad("index", "the index is out of range");
    Reader<V> r{v, m, live};
    if (m.alt >= 0) nth<V, 0>((size_t)m.alt, r);
}

M gen(const T<0>*, Rng& r, int) { M m; m.v = (int)r.below(20); return m; }
template <int K, bool n> M gen(const T<K, n>*, Rng& r, int) { M m; m.v = (int)r.below(20); return m; }
template <class V, class = decltype(Is<V>::n)> M gen(const V*, Rng& r, int depth);
M gen(const Node*, Rng& r, int depth) { M m; m.v = (int)r.below(20); if (depth > 0) for (size_t n = r.below(4); n--;) m.kids.push_back(gen((const RV*)nullptr, r, depth - 1)); return m; }
M gen(const RC*, Rng& r, int depth) { M m; m.v = (int)r.below(20); if (depth > 0) for (size_t n = r.below(4); n--;) m.kids.push_back(gen((const RCB*)nullptr, r, depth - 1)); return m; }
M gen(const Rec*, Rng& r, int depth)
{
    M m;
    m.v = (int)r.below(20);
    M k;
    if (depth > 0 && r.chance(2, 3)) { k = gen((const Rec*)nullptr, r, depth - 1); k.alt = 0; }
    m.kids.push_back(k);
    return m;
}
template <class V> struct Gen
{
    Rng& r;
    int  depth;
    M    m;
    template <size_t i> void operator()(Ix<i>) { m = gen((const typename Is<V>::template At<i>*)nullptr, r, depth); m.alt = (int)i; }
};
template <class V, class> M gen(const V*, Rng& r, int depth)
{
    Gen<V> g{r, depth, M()};
    nth<V, 0>(r.below(Is<V>::n), g);
    return g.m;
}
template <int K, bool n> void put(T<K, n>& t, const M& m) { t.v = m.v; }
template <class V, class = decltype(Is<V>::n)> void put(V& v, const M& m);
template <class N, class = decltype(N::kind), class = decltype(std::declval<N>().kids)> void put(N& n, const M& m, int = 0)
{
    put(n.t, m);
    n.kids.resize(m.kids.size());
    for (size_t i = 0; i < m.kids.size(); i++) put(n.kids[i], m.kids[i]);
}
void put(Rec& n, const M& m)
{
    put(n.t, m);
    if (m.kids.empty() || m.kids[0].alt < 0) { n.next = empty; return; }
    n.next.emplace();
    put(*n.next, m.kids[0]);
}
template <class V> struct Putter
{
    V&       v;
    const M& m;
    template <size_t i> void operator()(Ix<i>) { v.template emplace<i>(); put(get<i>(v), m); }
};
template <class V, class> void put(V& v, const M& m)
{
    Putter<V> p{v, m};
    if (m.alt >= 0) nth<V, 0>((size_t)m.alt, p);
}
// the value of the k-th element of a choice, as it is seen by visitors
struct VisitKind
{
    template <int K, bool n> int operator()(const T<K, n>& t) const { t.alive("visit"); return t.v * 8 + K; }
    template <class N> auto operator()(const N& n) const -> decltype(n.t.v) { return n.t.v * 8 + N::kind; }
};
struct VisitSet
{
    int v;
    template <int K, bool n> void operator()(T<K, n>& t) const { t.v = v; }
    template <class N> auto operator()(N& n) const -> decltype(void(n.t.v)) { n.t.v = v; }
};

// Part of an object: the object itself, or one of the objects of the same type which it contains
template <class V> void parts(V& v, std::vector<V*>& out);
template <class V, class X> void parts_of(X&, std::vector<V*>&) {}
template <class V> void parts_of(Node& n, std::vector<RV*>& o) { for (auto& k : n.kids) parts<RV>(k, o); }
template <class V> void parts_of(RC& n, std::vector<RCB*>& o) { for (auto& k : n.kids) parts<RCB>(k, o); }
template <class V> struct Parter
{
    V& v;
    std::vector<V*>& o;
    template <size_t i> void operator()(Ix<i>) { parts_of<V>(get<i>(v), o); }
};
template <class V> void parts(V& v, std::vector<V*>& out)
{
    out.push_back(&v);
    Parter<V> p{v, out};
    if (!v.valueless_by_exception()) nth<V, 0>(v.index(), p);
}
void parts(RO& o, std::vector<RO*>& out)
{
    out.push_back(&o);
    if (o.has_value()) parts(o->next, out);
}
template <class X> void parts(X& o, std::vector<X*>& out, int) { out.push_back(&o); }
template <class V> M model(const V& v)
{
    int64_t n[KINDS] = {};
    M       m;
    read(v, m, n);
    return m;
}

// ------------------------------------------------------------------------------------------------------------ worlds
struct Base
{
    const char* doing = "";
    Ctx&        c;
    explicit Base(Ctx& x) : c(x) { g_ctx = &x; }
    virtual ~Base() {}
    virtual void step(const Op&) = 0;
    virtual void clear()         = 0;
    bool threw = false, alloc = false;
    // Runs library code, where the n-th fallible step of contents, or the n-th allocation, fails
    template <class F> void lib(const Op& o, F f)
    {
        long long fault = o.arg(6);
        threw           = false;
        g_thrown        = false;
        g_point         = 0;
        g_throw_at      = fault > 0 ? (uint64_t)fault : 0;
        AllocScope s(fault < 0 && alloc ? (uint64_t)-fault : 0);
        g_armed = true;
        try { f(); }
        catch (const Boom&) { threw = true; }
        catch (const std::bad_alloc&) { threw = true; s.stop(); if (!s.failed()) { g_armed = false; bad("exception", "bad_alloc though no allocation failed"); } }
        catch (const Violation&) { g_armed = false; throw; }
        catch (...) { g_armed = false; s.stop(); bad("exception", std::string(doing) + ": an exception of another type"); }
        g_armed = false;
        s.stop();
        if (!g_broken.empty()) { std::string b; b.swap(g_broken); bad("lifetime", std::string(doing) + ": " + b); }
        if (threw) c.tick(g_thrown ? "fault_contents_threw" : "fault_alloc_threw");
        if (!threw && g_thrown) bad("exception", std::string(doing) + ": the exception of a contained object was not passed on");
    }
};
const size_t POOL = 5;
template <class V> struct VarWorld : Base
{
    using I = Is<V>;
    std::unique_ptr<V> obj[POOL];
    M                  mod[POOL];
    explicit VarWorld(Ctx& x) : Base(x) { for (size_t i = 0; i < POOL; i++) { obj[i].reset(new V()); mod[i] = model(*obj[i]); } }
    void clear() override { for (auto& o : obj) o.reset(); }
    void check(const char* what, size_t i, const M& want)
    {
        M m = model(*obj[i]);
        if (!(m == want)) bad("value", std::string(doing) + ": " + what + " object " + std::to_string(i) + " holds " + m.str() + " instead of " + want.str());
    }
    // after an exception: as before, or valueless
    void after_throw(size_t a)
    {
        M m = model(*obj[a]);
        if (m.alt >= 0 && !(m == mod[a])) bad("value", std::string(doing) + ": after an exception it holds " + m.str() + ", before " + mod[a].str());
        c.tick(m.alt < 0 ? "valueless_after_exception" : "unchanged_after_exception");
        mod[a] = m;
    }
    // a value was moved from: valueless, or the same alternative
    void after_move(size_t b)
    {
        M m = model(*obj[b]);
        if (m.alt >= 0 && m.alt != mod[b].alt) bad("value", std::string(doing) + ": moving changed the alternative of the source");
        mod[b] = m;
    }
    void check_all()
    {
        int64_t live[KINDS] = {};
        for (size_t i = 0; i < POOL; i++)
        {
            M m;
            read(*obj[i], m, live);
            if (!(m == mod[i])) bad("value", std::string(doing) + ": object " + std::to_string(i) + " holds " + m.str() + " instead of " + mod[i].str());
            Observe o{*this, i};
            for (size_t k = 0; k < I::n; k++) nth<V, 0>(k, o);
            c.state(hash64(hash_str(doing), hash64((uint64_t)m.alt, m.kids.size() * 2 + (threw ? 1 : 0)) ^ hash64(sizeof(V), I::n)));
        }
        for (int k = 0; k < KINDS; k++)
            if (live[k] != g_live[k]) bad("lifetime", std::string(doing) + ": " + std::to_string(g_live[k]) + " contained objects of kind " + std::to_string(k) + " exist, " + std::to_string(live[k]) + " are held");
        if (!g_broken.empty()) { std::string b; b.swap(g_broken); bad("lifetime", b); }
    }
    struct Observe
    {
        VarWorld& w;
        size_t    i;
        template <size_t k> void operator()(Ix<k>)
        {
            V&       v = *w.obj[i];
            const V& q = v;
            bool     here = w.mod[i].alt == (int)k;
            if (v.valueless_by_exception() != (w.mod[i].alt < 0) || (here && v.index() != k)) bad("index", "index() or valueless_by_exception()");
            if ((get_if<k>(&v) != nullptr) != here || (get_if<k>(&q) != nullptr) != here) bad("get", std::string(w.doing) + ": get_if by index");
            if (get_if<k>((V*)nullptr) || get_if<k>((const V*)nullptr)) bad("get", "get_if(nullptr)");
            if (here && (get_if<k>(&v) != &get<k>(v) || &get<k>(v) != &get<k>(q))) bad("get", "get and get_if refer to different objects");
            if (!here)
            {
                int n = 0;
                try { get<k>(v); n++; } catch (const typename I::Bad&) {}
                try { get<k>(q); n++; } catch (const typename I::Bad&) {}
                if (n) bad("get", "get by index does not reject another alternative");
            }
            by_type<typename I::template At<k>>(here, std::integral_constant<bool, I::template Once<typename I::template At<k>>::value>());
            if (k == 0)
            {
                int n = -1;
                try { n = I::visit(VisitKind(), v); } catch (const typename I::Bad&) { n = -2; }
                if ((n == -2) != (w.mod[i].alt < 0) || (n != -2 && (n >> 3) != w.mod[i].v)) bad("visit", std::string(w.doing) + ": visit " + std::to_string(n));
            }
        }
        template <class X> void by_type(bool here, std::true_type)
        {
            V&       v = *w.obj[i];
            const V& q = v;
            if (holds_alternative<X>(v) != here) bad("get", "holds_alternative");
            if ((get_if<X>(&v) != nullptr) != here || (get_if<X>(&q) != nullptr) != here) bad("get", "get_if by type");
            int n = 0;
            try { X& x = get<X>(v); (void)x; n |= 1; } catch (const typename I::Bad&) {}
            try { const X& x = get<X>(q); (void)x; n |= 2; } catch (const typename I::Bad&) {}
            if (n != (here ? 3 : 0)) bad("get", "get by type");
        }
        template <class X> void by_type(bool, std::false_type) {}
    };
    // operations which name an alternative
    struct Alt
    {
        VarWorld& w;
        const Op& o;
        size_t    a, b;
        M         want;
        template <size_t k> void operator()(Ix<k>)
        {
            using X = typename I::template At<k>;
            Rng r((uint64_t)o.arg(4));
            want     = gen((const X*)nullptr, r, 2);
            want.alt = (int)k;
            with<k, X>(r, (uint64_t)o.arg(5), std::integral_constant<bool, I::template Once<X>::value>());
        }
        template <size_t k, class X> void fresh_args(int& x, int& y) { x = want.v; y = (int)(want.kids.size()) + 3; want.kids.clear(); if (std::is_same<X, void>::value) x = 0; }
        template <size_t k, class X> void with(Rng& r, uint64_t how, std::integral_constant<bool, false>) { common<k, X>(r, how % 6); }
        template <size_t k, class X> void with(Rng& r, uint64_t how, std::integral_constant<bool, true>)
        {
            how %= 16;
            if (how < 6) { common<k, X>(r, how); return; }
            std::unique_ptr<V> p;
            std::unique_ptr<X> x; // a value from outside
            { Quiet q; x.reset(new X()); put(*x, want); }
            M   before = want;
            V&  v      = *w.obj[a];
            int i, j;
            w.alloc = true;
            switch (how)
            {
            case 6: w.doing = "construct from value"; w.lib(o, [&]() { p.reset(new V(static_cast<const X&>(*x))); }); break;
            case 7: w.doing = "construct from lvalue"; w.lib(o, [&]() { p.reset(new V(*x)); }); break;
            case 8: w.doing = "construct from rvalue"; w.alloc = false; w.lib(o, [&]() { p.reset(new V(std::move(*x))); }); break;
            case 9: w.doing = "construct in place by type"; fresh_args<k, X>(i, j); w.lib(o, [&]() { p.reset(new V(typename I::template InType<X>(), i, j)); }); want.v = i * 1000 + j; break;
            case 10: w.doing = "assign value"; w.lib(o, [&]() { v = static_cast<const X&>(*x); }); break;
            case 11: w.doing = "assign lvalue"; w.lib(o, [&]() { v = *x; }); break;
            case 12: w.doing = "assign rvalue"; w.alloc = false; w.lib(o, [&]() { v = std::move(*x); }); break;
            case 13: w.doing = "emplace by type"; w.lib(o, [&]() { X& y = v.template emplace<X>(static_cast<const X&>(*x)); if (&y != &get<k>(v)) bad("emplace", "another object is returned"); }); break;
            case 14: w.doing = "emplace rvalue by type"; w.lib(o, [&]() { v.template emplace<X>(std::move(*x)); }); break;
            default:
                w.doing = "assign own alternative";
                if (w.mod[a].alt != (int)k) return;
                want = w.mod[a];
                switch (r.below(4))
                {
                case 0: w.lib(o, [&]() { v = get<k>(v); }); break;
                case 1: w.lib(o, [&]() { v = static_cast<const X&>(get<k>(v)); }); break;
                case 2: w.lib(o, [&]() { v.template emplace<X>(X(get<k>(v))); }); break;
                default: w.alloc = false; w.lib(o, [&]() { v = std::move(get<k>(v)); });
                }
                if (w.threw) { M m = model(v); if (m.alt >= 0 && m.alt != want.alt) bad("value", "another alternative after an exception"); w.mod[a] = m; return; }
                w.mod[a] = want;
                return;
            }
            if (how == 8 || how == 12 || how == 14) { Quiet q; x.reset(); }
            else
            {
                M m;
                int64_t n[KINDS] = {};
                read(*x, m, n);
                m.alt = before.alt;
                if (!(m == before)) bad("value", std::string(w.doing) + ": the source changed to " + m.str());
                Quiet q;
                x.reset();
            }
            finish(p, how <= 9);
        }
        template <size_t k, class X> void common(Rng& r, uint64_t how)
        {
            std::unique_ptr<V> p;
            V&  v = *w.obj[a];
            int i, j;
            w.alloc = true;
            bool made = false;
            fresh_args<k, X>(i, j);
            switch (how)
            {
            case 0: made = true; w.doing = "construct in place by index"; w.lib(o, [&]() { p.reset(new V(typename I::template InIndex<k>(), i, j)); }); want.v = i * 1000 + j; break;
            case 1: made = true; w.doing = "construct in place"; w.lib(o, [&]() { p.reset(new V(typename I::template InIndex<k>(), i)); }); want.v = i; break;
            case 2: w.doing = "emplace by index"; w.lib(o, [&]() { auto& y = v.template emplace<k>(i, j); if (&y != &get<k>(v)) bad("emplace", "another object is returned"); }); want.v = i * 1000 + j; break;
            case 3: w.doing = "emplace default"; w.lib(o, [&]() { v.template emplace<k>(); }); want.v = 0; break;
            case 4: list<k, X>(v, p, i, j, r, made, std::integral_constant<bool, std::is_constructible<X, std::initializer_list<int>&, int>::value>()); break;
            default: w.doing = "emplace int"; w.lib(o, [&]() { v.template emplace<k>(i); }); want.v = i; break;
            }
            finish(p, made);
        }
        template <size_t k, class X> void list(V& v, std::unique_ptr<V>& p, int i, int j, Rng& r, bool& made, std::true_type)
        {
            w.doing = "initializer list";
            want.v  = i + j + 5 + j;
            list_in<k, X>(v, p, i, j, r.below(4), made, std::integral_constant<bool, I::template Once<X>::value>());
        }
        template <size_t k, class X> void list(V& v, std::unique_ptr<V>&, int i, int, Rng&, bool&, std::false_type) { w.lib(o, [&]() { v.template emplace<k>(i); }); want.v = i; }
        template <size_t k, class X> void list_in(V& v, std::unique_ptr<V>& p, int i, int j, uint64_t how, bool& made, std::true_type)
        {
            if (how == 0) { w.lib(o, [&]() { v.template emplace<X>({i, j, 5}, j); }); return; }
            if (how == 1) { made = true; w.lib(o, [&]() { p.reset(new V(typename I::template InType<X>(), {i, j, 5}, j)); }); return; }
            list_in<k, X>(v, p, i, j, how, made, std::false_type());
        }
        template <size_t k, class X> void list_in(V& v, std::unique_ptr<V>& p, int i, int j, uint64_t how, bool& made, std::false_type)
        {
            if (how % 2) { made = true; w.lib(o, [&]() { p.reset(new V(typename I::template InIndex<k>(), {i, j, 5}, j)); }); return; }
            w.lib(o, [&]() { v.template emplace<k>({i, j, 5}, j); });
        }
        void finish(std::unique_ptr<V>& p, bool made)
        {
            if (w.threw)
            {
                if (made) { if (p) bad("construct", "an object although its constructor threw"); w.check("unrelated", a, w.mod[a]); }
                else w.after_throw(a);
                return;
            }
            if (made) { w.obj[a] = std::move(p); }
            w.mod[a] = want;
            w.check("target", a, want);
        }
    };
    V* part(size_t a, uint64_t n)
    {
        std::vector<V*> all;
        parts<V>(*obj[a], all);
        return all[n % all.size()];
    }
    void step(const Op& o) override
    {
        size_t a = (size_t)((uint64_t)o.arg(1) % POOL), b = (size_t)((uint64_t)o.arg(2) % POOL);
        doing = o.name.c_str();
        threw = false;
        alloc = true;
        V& v = *obj[a];
        std::unique_ptr<V> p;
        if (o.name == "alt")
        {
            Alt x{*this, o, a, b, M()};
            nth<V, 0>((uint64_t)o.arg(3) % I::n, x);
        }
        else if (o.name == "default")
        {
            alloc = false;
            lib(o, [&]() { p.reset(new V()); });
            if (!threw) { obj[a] = std::move(p); M m; m.alt = 0; if (I::n) mod[a] = m; check("new", a, mod[a]); }
        }
        else if (o.name == "copy")
        {
            M want = mod[b];
            lib(o, [&]() { p.reset(new V(*static_cast<const V*>(obj[b].get()))); });
            check("source", b, want);
            if (!threw) { obj[a] = std::move(p); mod[a] = want; check("copy", a, want); }
        }
        else if (o.name == "move")
        {
            M want = mod[b];
            lib(o, [&]() { p.reset(new V(std::move(*obj[b]))); });
            if (!threw) { after_move(b); obj[a] = std::move(p); mod[a] = want; check("moved to", a, want); }
        }
        else if (o.name == "assign")
        {
            M want = mod[b];
            lib(o, [&]() { V& r = (v = *static_cast<const V*>(obj[b].get())); if (&r != &v) bad("assign", "returns another object"); });
            if (a == b) c.tick("self_assignment");
            if (threw) { if (a != b) check("source", b, mod[b]); after_throw(a); return; }
            if (a != b) check("source", b, want);
            mod[a] = want;
        }
        else if (o.name == "massign")
        {
            M want = mod[b];
            lib(o, [&]() { v = std::move(*obj[b]); });
            if (a == b) { after_move(a); c.tick("self_move"); return; }
            if (threw) { after_throw(a); mod[b] = model(*obj[b]); return; }
            after_move(b);
            mod[a] = want;
        }
        else if (o.name == "swap")
        {
            alloc = false;
            bool free_fn = o.arg(3) % 2;
            lib(o, [&]() { if (free_fn) { using std::swap; swap(v, *obj[b]); } else v.swap(*obj[b]); });
            if (threw) bad("swap", "swap threw");
            if (a != b) std::swap(mod[a], mod[b]);
        }
        else if (o.name == "part") // to the whole a part of itself is assigned, or the other way round
        {
            V*   q    = part(a, (uint64_t)o.arg(3));
            M    want = model(*q);
            int  how  = (int)((uint64_t)o.arg(4) % 4);
            if (q == &v && how == 1) return;
            if (q != &v) c.tick("own_part");
            switch (how)
            {
            case 0: doing = "assign own part"; lib(o, [&]() { v = *static_cast<const V*>(q); }); break;
            case 1: doing = "move assign own part"; lib(o, [&]() { v = std::move(*q); }); break;
            case 2: // to a part the whole
            {
                doing = "assign whole to its part";
                M whole = mod[a], old = model(*q);
                if (g_live[1] + g_live[4] > 300) return;
                lib(o, [&]() { *q = *static_cast<const V*>(&v); });
                M now = model(*q);
                if (threw ? !(now == old || now.alt < 0) : !(now == whole)) bad("value", std::string(doing) + ": the part holds " + now.str());
                mod[a] = model(v);
                return;
            }
            default: doing = "swap own part"; { V t(std::move(*q)); mod[a] = model(v); lib(o, [&]() { v = std::move(t); }); }
            }
            if (threw) { after_throw(a); return; }
            mod[a] = want;
        }
        else if (o.name == "visit")
        {
            set(v, (int)o.arg(3) % 20, std::integral_constant<bool, std::is_same<typename I::template InIndex<0>, dynamic::in_place_index_t<0>>::value>());
            if (mod[a].alt >= 0) { M m = model(v); mod[a].v = m.v; }
        }
        else if (o.name == "rvalue") // access to the alternative of an expiring variant
        {
            Rget g{*this, a};
            if (mod[a].alt >= 0) nth<V, 0>((size_t)mod[a].alt, g);
        }
        else if (o.name == "compare")
        {
            const V &x = *obj[a], &y = *obj[b];
            int      q = order(mod[a], mod[b]);
            bool     e[6] = {};
            lib(Op{o.name, {}}, [&]() { e[0] = x == y; e[1] = x != y; e[2] = x < y; e[3] = x > y; e[4] = x <= y; e[5] = x >= y; });
            bool w[6] = {q == 0, q != 0, q < 0, q > 0, q <= 0, q >= 0};
            static const char* const n[6] = {"==", "!=", "<", ">", "<=", ">="};
            for (int i = 0; i < 6; i++) if (e[i] != w[i]) bad("compare", mod[a].str() + " " + n[i] + " " + mod[b].str() + " is " + (e[i] ? "true" : "false"));
            c.tick(mod[a].alt < 0 || mod[b].alt < 0 ? "compared_valueless" : q == 0 ? "compared_equal" : "compared_unequal");
        }
    }
    struct Rget
    {
        VarWorld& w;
        size_t    a;
        template <size_t k> void operator()(Ix<k>)
        {
            using X = typename I::template At<k>;
            V&      v = *w.obj[a];
            const X&& c1 = get<k>(static_cast<const V&&>(v));
            if (&c1 != &get<k>(v)) bad("get", "get of a const rvalue refers to another object");
            X&& r1 = get<k>(std::move(v));
            if (&r1 != &get<k>(v)) bad("get", "get of an rvalue refers to another object");
            type<k, X>(v, std::integral_constant<bool, I::template Once<X>::value>());
            w.check("read", a, w.mod[a]);
            M   want = w.mod[a];
            { X x(get<k>(std::move(v))); M m; int64_t n[KINDS] = {}; read(x, m, n); m.alt = (int)k; if (!(m == want)) bad("get", "another value is moved out: " + m.str()); }
            w.after_move(a);
        }
        template <size_t k, class X> void type(V& v, std::true_type)
        {
            X&& r = get<X>(std::move(v));
            const X&& q = get<X>(static_cast<const V&&>(v));
            if (&r != &get<k>(v) || &q != &r) bad("get", "get of an rvalue by type");
        }
        template <size_t k, class X> void type(V&, std::false_type) {}
    };
    void set(V& v, int x, std::true_type)
    {
        bool threw = false;
        try { I::visit(VisitSet{x}, v); } catch (const typename I::Bad&) { threw = true; }
        if (threw != v.valueless_by_exception()) bad("visit", "a valueless variant is visited");
        if (!threw && model(v).v != x) bad("visit", "the visitor got another object");
    }
    void set(V&, int, std::false_type) {}
};

template <class V> struct OptWorld : Base
{
    using X = typename std::decay<decltype(*std::declval<V&>())>::type;
    std::unique_ptr<V> obj[POOL];
    M                  mod[POOL];
    explicit OptWorld(Ctx& x) : Base(x) { for (size_t i = 0; i < POOL; i++) obj[i].reset(new V()); }
    void clear() override { for (auto& o : obj) o.reset(); }
    void check_all()
    {
        int64_t live[KINDS] = {};
        for (size_t i = 0; i < POOL; i++)
        {
            M m;
            read(*obj[i], m, live);
            if (!(m == mod[i])) bad("value", std::string(doing) + ": object " + std::to_string(i) + " holds " + m.str() + " instead of " + mod[i].str());
            const V& q = *obj[i];
            if (bool(q) != (m.alt >= 0) || q.has_value() != (m.alt >= 0)) bad("has_value", "operator bool");
            if (m.alt >= 0 && (&*q != q.operator->() || &*q != &**obj[i])) bad("get", "* and -> refer to different objects");
            c.state(hash64(hash_str(doing), hash64((uint64_t)m.alt, m.kids.size() * 2 + (threw ? 1 : 0)) ^ hash64(sizeof(V), sizeof(X) + 99)));
        }
        for (int k = 0; k < KINDS; k++)
            if (live[k] != g_live[k]) bad("lifetime", std::string(doing) + ": " + std::to_string(g_live[k]) + " contained objects of kind " + std::to_string(k) + " exist, " + std::to_string(live[k]) + " are held");
        if (!g_broken.empty()) { std::string b; b.swap(g_broken); bad("lifetime", b); }
    }
    void after_throw(size_t a, bool value_may_change = false)
    {
        M m = model(*obj[a]);
        if (m.alt >= 0 && !(m == mod[a]) && !value_may_change) bad("value", std::string(doing) + ": after an exception it holds " + m.str() + ", before " + mod[a].str());
        c.tick(m.alt < 0 ? "valueless_after_exception" : "unchanged_after_exception");
        mod[a] = m;
    }
    static void all_parts(RO& o, std::vector<RO*>& out) { parts(o, out); }
    template <class Y> static void all_parts(Y& o, std::vector<Y*>& out) { out.push_back(&o); }
    void step(const Op& o) override
    {
        size_t a = (size_t)((uint64_t)o.arg(1) % POOL), b = (size_t)((uint64_t)o.arg(2) % POOL);
        doing = o.name.c_str();
        threw = false;
        alloc = true;
        V&                 v = *obj[a];
        std::unique_ptr<V> p;
        if (o.name == "alt")
        {
            Rng r((uint64_t)o.arg(4));
            M   want = gen((const X*)nullptr, r, 3);
            want.alt = 0;
            M     none;
            std::unique_ptr<X> x;
            { Quiet q; x.reset(new X()); put(*x, want); }
            int  i = want.v, j = 3;
            bool made = false;
            M    plain = want; // of an X constructed from numbers
            for (auto& k : plain.kids) k = M();
            switch ((uint64_t)o.arg(5) % 14)
            {
            case 0: doing = "= empty"; lib(o, [&]() { v = empty; }); want = none; break;
            case 1: doing = "emplace"; lib(o, [&]() { X& y = v.emplace(); if (&y != &*v) bad("emplace", "returns another object"); }); want = plain; want.v = 0; break;
            case 2: doing = "emplace numbers"; lib(o, [&]() { v.emplace(i, j); }); want = plain; want.v = i * 1000 + j; break;
            case 3: doing = "emplace value"; lib(o, [&]() { v.emplace(static_cast<const X&>(*x)); }); break;
            case 4: doing = "emplace rvalue"; lib(o, [&]() { v.emplace(std::move(*x)); }); break;
            case 5: doing = "= value"; lib(o, [&]() { v = static_cast<const X&>(*x); }); break;
            case 6: doing = "= lvalue"; lib(o, [&]() { v = *x; }); break;
            case 7: doing = "= rvalue"; lib(o, [&]() { v = std::move(*x); }); break;
            case 8: doing = "construct from value"; made = true; lib(o, [&]() { p.reset(new V(static_cast<const X&>(*x))); }); break;
            case 9: doing = "construct from rvalue"; made = true; lib(o, [&]() { p.reset(new V(std::move(*x))); }); break;
            case 10: doing = "construct empty"; made = true; lib(o, [&]() { p.reset(new V(empty)); }); want = none; break;
            case 11:
                doing = "* = value";
                if (mod[a].alt < 0) return;
                lib(o, [&]() { *v = static_cast<const X&>(*x); });
                if (threw) { after_throw(a, true); return; }
                break;
            case 12: doing = "= own value"; if (mod[a].alt < 0) return; want = mod[a]; lib(o, [&]() { v = *v; }); if (threw) { after_throw(a, true); return; } break;
            default: doing = "emplace own value"; if (mod[a].alt < 0) return; want = mod[a]; lib(o, [&]() { v.emplace(X(*v)); }); break;
            }
            x.reset();
            if (threw) { if (!made) after_throw(a); else if (p) bad("construct", "an object although its constructor threw"); return; }
            if (made) obj[a] = std::move(p);
            mod[a] = want;
        }
        else if (o.name == "default") { lib(o, [&]() { p.reset(new V()); }); if (!threw) { obj[a] = std::move(p); mod[a] = M(); } }
        else if (o.name == "copy")
        {
            M want = mod[b];
            lib(o, [&]() { p.reset(new V(*static_cast<const V*>(obj[b].get()))); });
            if (!threw) { obj[a] = std::move(p); mod[a] = want; }
        }
        else if (o.name == "move")
        {
            M want = mod[b];
            alloc = false; // what moves
            lib(Op{o.name, {}}, [&]() { p.reset(new V(std::move(*obj[b]))); });
            mod[b] = model(*obj[b]);
            obj[a] = std::move(p);
            mod[a] = want;
        }
        else if (o.name == "assign")
        {
            M want = mod[b];
            lib(o, [&]() { v = *static_cast<const V*>(obj[b].get()); });
            if (a == b) c.tick("self_assignment");
            if (threw) { after_throw(a, true); return; }
            mod[a] = want;
        }
        else if (o.name == "massign")
        {
            M want = mod[b];
            lib(Op{o.name, {}}, [&]() { v = std::move(*obj[b]); });
            if (a == b) { c.tick("self_move"); mod[a] = model(v); return; }
            mod[b] = model(*obj[b]);
            mod[a] = want;
        }
        else if (o.name == "swap")
        {
            lib(Op{o.name, {}}, [&]() { using std::swap; swap(v, *obj[b]); });
            if (a != b) std::swap(mod[a], mod[b]); else mod[a] = model(v);
        }
        else if (o.name == "part")
        {
            std::vector<V*> all;
            all_parts(v, all);
            V*  q    = all[(uint64_t)o.arg(3) % all.size()];
            M   want = model(*q);
            if (q == &v) return;
            c.tick("own_part");
            switch ((uint64_t)o.arg(4) % 3)
            {
            case 0: doing = "assign own part"; lib(o, [&]() { v = *static_cast<const V*>(q); }); break;
            case 1: doing = "move assign own part"; lib(Op{o.name, {}}, [&]() { v = std::move(*q); }); break;
            default:
            {
                doing = "assign whole to its part";
                M whole = mod[a], old = want;
                if (g_live[2] > 300) return;
                lib(o, [&]() { *q = *static_cast<const V*>(&v); });
                M now = model(*q);
                if (threw ? !(now == old || now.alt < 0) : !(now == whole)) bad("value", std::string(doing) + ": the part holds " + now.str());
                mod[a] = model(v);
                return;
            }
            }
            if (threw) { after_throw(a); return; }
            mod[a] = want;
        }
        else if (o.name == "compare")
        {
            const V &x = *obj[a], &y = *obj[b];
            bool     q = mod[a] == mod[b];
            if ((x == y) != q || (x != y) == q) bad("compare", mod[a].str() + " == " + mod[b].str());
            if (mod[b].alt >= 0 && ((x == *y) != q || (x != *y) == q)) bad("compare", mod[a].str() + " == value of " + mod[b].str());
            c.tick(mod[a].alt < 0 || mod[b].alt < 0 ? "compared_valueless" : q ? "compared_equal" : "compared_unequal");
        }
    }
};

// Contents which can be moved, but not copied
struct OnlyWorld : Base
{
    using V = dynamic::DynamicVariant<T<0>, Only>;
    using O = DynamicOptional<Only>;
    V   v;
    O   q;
    int mv = 0, mq = 0; // values, -1: another alternative, none
    explicit OnlyWorld(Ctx& x) : Base(x) { mv = -1; mq = -1; }
    void clear() override {}
    void check_all()
    {
        bool has = v.index() == 1;
        if (has != (mv >= 0) || (has && dynamic::get<1>(v).v != mv)) bad("value", std::string(doing) + ": variant of a type which cannot be copied");
        if (q.has_value() != (mq >= 0) || (q.has_value() && q->v != mq)) bad("value", std::string(doing) + ": optional of a type which cannot be copied");
        if (g_live[6] != (mv >= 0) + (mq >= 0)) bad("lifetime", std::string(doing) + ": contents exist which are not held");
        if (!g_broken.empty()) { std::string b; b.swap(g_broken); bad("lifetime", b); }
    }
    void step(const Op& o) override
    {
        doing = "contents which cannot be copied";
        int   x = (int)((uint64_t)o.arg(4) % 20);
        Only  n;
        n.v  = x;
        auto was = std::make_pair(mv, mq);
        alloc = true;
        switch ((uint64_t)o.arg(5) % 9)
        {
        case 0: alloc = false; lib(o, [&]() { V w(std::move(n)); v = std::move(w); }); mv = x; break;
        case 1: lib(o, [&]() { v.emplace<Only>(std::move(n)); }); mv = x; break;
        case 2: alloc = false; lib(o, [&]() { v = std::move(n); }); mv = x; break;
        case 3: lib(o, [&]() { v.emplace<1>(x, x); }); mv = x * 1001; break;
        case 4: lib(o, [&]() { v.emplace<0>(); }); mv = -1; break;
        case 5: lib(o, [&]() { q.emplace(std::move(n)); }); mq = x; break;
        case 6: lib(o, [&]() { q = O(std::move(n)); }); mq = x; break;
        case 7: lib(o, [&]() { O w(std::move(q)); q = std::move(w); }); break;
        default: alloc = false; lib(o, [&]() { V w(std::move(v)); v = T<0>(); v = std::move(w); }); mv = was.first; break;
        }
        if (threw) { mv = v.index() == 1 ? was.first : -1; mq = q.has_value() ? was.second : -1; }
    }
};

using D3 = dynamic::DynamicVariant<T<0>, T<1>, T<2>>;
using DD = dynamic::DynamicVariant<T<0>, T<0>, T<1>, T<1>>;
using C3 = Choice<Choices<T<0>, T<1>, T<2>>, Id<Class::context_specific, 9>, StorageMode::dynamic>;
using S3 = Choice<Choices<T<0>, T<2>, T<4>>, Id<Class::context_specific, 9>, StorageMode::static_>;
const size_t WORLDS = 10;
template <class W> void go(const Plan& p, Ctx& c, const char* name)
{
    W w(c);
    for (auto& o : p)
    {
        if (o.arg(0) % (long long)WORLDS < 0) continue;
        c.now += 1000;
        sim_step_limit(50000000);
        w.step(o);
        w.check_all();
        c.ev("%s %s", name, w.doing);
        c.events++;
    }
    w.doing = "destruction";
    w.clear();
}
} // namespace

void world_init() {}
Plan world_gen(uint64_t seed, const std::string&)
{
    Rng  r(seed);
    Plan p;
    long long world = (long long)r.below(WORLDS);
    bool faults = r.chance(2, 3);
    p.push_back(Op{"world", {world}});
    for (long n = r.range(5, 60); n--;)
    {
        static const char* const names[] = {"alt", "alt", "alt", "alt", "alt", "alt", "copy", "move", "assign", "assign", "massign", "swap", "part", "part", "visit", "rvalue", "compare", "compare", "default"};
        long long fault = 0;
        if (faults && r.chance(1, 2)) fault = r.chance(2, 3) ? 1 + (long long)r.below(r.chance(1, 2) ? 3 : 12) : -1 - (long long)r.below(r.chance(1, 2) ? 2 : 8);
        p.push_back(Op{names[r.below(sizeof names / sizeof *names)], {world, (long long)r.below(POOL), (long long)r.below(POOL), (long long)r.below(1000), (long long)r.below(1000000), (long long)r.below(1000), fault}});
    }
    return p;
}
void world_run(const Plan& p, const std::string&, Ctx& c)
{
    for (auto& n : g_live) n = 0;
    g_broken.clear();
    int64_t  start = g_alloc.owned;
    uint64_t world = 0;
    for (auto& o : p) world = (uint64_t)o.arg(0) % WORLDS;
    Plan q;
    for (auto& o : p) if (o.name != "world") q.push_back(o);
    switch (world)
    {
    case 0: go<VarWorld<D3>>(q, c, "DynamicVariant"); break;
    case 1: go<VarWorld<DD>>(q, c, "DynamicVariant with repeated types"); break;
    case 2: go<VarWorld<RV>>(q, c, "recursive DynamicVariant"); break;
    case 3: go<VarWorld<C3>>(q, c, "dynamic Choice"); break;
    case 4: go<VarWorld<RCB>>(q, c, "recursive Choice"); break;
    case 5: go<VarWorld<S3>>(q, c, "static Choice"); break;
    case 6: go<OptWorld<DynamicOptional<T<1>>>>(q, c, "DynamicOptional"); break;
    case 7: go<OptWorld<RO>>(q, c, "recursive Optional"); break;
    case 8: go<OptWorld<Optional<T<2>>>>(q, c, "static Optional"); break;
    default: go<OnlyWorld>(q, c, "contents which cannot be copied"); break;
    }
    sim_step_limit(0);
    for (int k = 0; k < KINDS; k++) if (g_live[k]) c.fail("lifetime", "%lld contained objects of kind %d exist after all objects were destroyed", (long long)g_live[k], k);
    if (!g_broken.empty()) { std::string b; b.swap(g_broken); c.fail("lifetime", "%s", b.c_str()); }
    if (g_alloc.owned != start) c.fail("leak", "%lld allocated objects are still there after everything was destroyed", (long long)(g_alloc.owned - start));
}
