#include "life.hpp"

#include "bridge.hpp"

#include <memory>

using namespace fast_ber;

std::vector<LifeType>& life_types() { static std::vector<LifeType> r; return r; }
std::vector<Cross>&    life_crosses() { static std::vector<Cross> r; return r; }

enum class Colour { red = 0, green = 5, blue = -3, huge = 100000 };
static std::ostream& operator<<(std::ostream& os, Colour c) { return os << (int)c; }

namespace
{
using Ctx0   = Id<Class::context_specific, 0>;
using Ctx3   = Id<Class::context_specific, 3>;
using App40  = Id<Class::application, 40>;
using Priv   = Id<Class::private_, 2097152>;
template <UniversalTag t> using Expl = DoubleId<Id<Class::context_specific, 7>, ExplicitId<t>>;
template <UniversalTag t> using Far  = DoubleId<Id<Class::application, 16384>, ExplicitId<t>>;

std::vector<TagN> tags_of(RuntimeId id) { return {TagN{(int)id.class_(), (int64_t)id.tag()}}; }
template <Class c, Tag t> std::vector<TagN> tags(Id<c, t>) { return {TagN{(int)c, (int64_t)t}}; }
template <typename A, typename B> std::vector<TagN> tags(DoubleId<A, B>) { auto v = tags(A{}); auto w = tags(B{}); v.insert(v.end(), w.begin(), w.end()); return v; }

Body* body(Kind k)
{
    Body* b = new Body();
    b->kind = k;
    return b;
}
Body *b_bool = body(K_BOOL), *b_int = body(K_INT), *b_real = body(K_REAL), *b_nul = body(K_NUL), *b_str = body(K_STR), *b_oid = body(K_OID), *b_time = body(K_GTIME);
Body* make_enum()
{
    Body* b = body(K_ENUM);
    b->enums = {{"red", 0}, {"green", 5}, {"blue", -3}, {"huge", 100000}};
    return b;
}
Body* b_enum = make_enum();
Body* list_of(Use elem, Kind k)
{
    Body* b = body(k);
    b->elem = elem;
    return b;
}

// ------------------------------------------------------------------------------------------- conversions by C++ type
template <class T> struct Cv;
#define CV(KIND, BODY, ...)                                                          \
    {                                                                                \
        static void to(const __VA_ARGS__& x, Val& v) { tvp_##KIND(x, v); }             \
        static void from(const Val& v, __VA_ARGS__& x, int st) { fvp_##KIND(v, x, st); } \
        static Use  use() { return Use{tags(I{}), BODY}; }                           \
    }
template <UniversalTag t, class I> struct Cv<StringImpl<t, I>> CV(STR, b_str, StringImpl<t, I>);
template <class I> struct Cv<Integer<I>> CV(INT, b_int, Integer<I>);
template <class I> struct Cv<Boolean<I>> CV(BOOL, b_bool, Boolean<I>);
template <class I> struct Cv<Real<I>> CV(REAL, b_real, Real<I>);
template <class I> struct Cv<Null<I>> CV(NUL, b_nul, Null<I>);
template <class I> struct Cv<ObjectIdentifier<I>> CV(OID, b_oid, ObjectIdentifier<I>);
template <class I> struct Cv<GeneralizedTime<I>> CV(GTIME, b_time, GeneralizedTime<I>);
template <class I> struct Cv<Enumerated<Colour, I>>
{
    using X = Enumerated<Colour, I>;
    static void to(const X& x, Val& v) { tvp_ENUM(x, v, std::initializer_list<std::pair<Colour, long long>>{}); }
    static void from(const Val& v, X& x, int st) { fvp_ENUM(v, x, std::initializer_list<std::pair<Colour, long long>>{}, st); }
    static Use  use() { return Use{tags(I{}), b_enum}; }
};
template <class T, class I, StorageMode s> struct Cv<SequenceOf<T, I, s>>
{
    using X = SequenceOf<T, I, s>;
    static void to(const X& x, Val& v)
    {
        for (const auto& e : x) { v.kids.emplace_back(); Cv<T>::to(e, v.kids.back()); }
    }
    static void from(const Val& v, X& x, int st)
    {
        open_list(x, v.kids.size(), st);
        size_t i = 0;
        for (auto& k : v.kids) Cv<T>::from(k, list_elem(x, i++), st);
    }
    static Use use() { static Body* b = list_of(Cv<T>::use(), K_SEQOF); return Use{tags(I{}), b}; }
};
template <class T, StorageMode s> struct Cv<Optional<T, s>>
{
    using X = Optional<T, s>;
    static void to(const X& x, Val& v) { if (x.has_value()) Cv<T>::to(*x, v); v.present = x.has_value(); }
    static void from(const Val& v, X& x, int st)
    {
        if (!v.present) { clear_optional(x, st); return; }
        Cv<T>::from(v, open_optional(x, st), st);
    }
    static Use use() { return Cv<T>::use(); }
};
struct Dint { static int64_t get_value() { return 300; } };
struct Dstr { static const char* get_value() { return "a default which is not that short"; } };
struct Dbool { static bool get_value() { return true; } };
struct Dreal { static double get_value() { return 0.5; } };
struct Denum { static Colour get_value() { return Colour::green; } };
template <class D> struct Dv;
template <> struct Dv<Dint> { static Val v() { return VI(300); } };
template <> struct Dv<Dstr> { static Val v() { return VS(Dstr::get_value()); } };
template <> struct Dv<Dbool> { static Val v() { return VI(1); } };
template <> struct Dv<Dreal> { static Val v() { return VD(0.5); } };
template <> struct Dv<Denum> { static Val v() { return VI(5); } };
template <class T, class D> struct Cv<Default<T, D>>
{
    using X = Default<T, D>;
    static void to(const X& x, Val& v) { Cv<T>::to(x.get(), v); v.present = !x.is_default(); }
    static void from(const Val& v, X& x, int st)
    {
        if (!v.present && style(2)) { x.set_to_default(); return; }
        T t;
        Cv<T>::from(v, t, st);
        if (style(2)) x = t; else x = X(t);
    }
    static Use use() { return Cv<T>::use(); }
};
template <size_t i, class C> struct AltOf { using type = typename variant_alternative<i, C>::type; };
template <class C, class... Ts> struct Alts
{
    template <size_t i> struct At { using type = typename dynamic::detail::TypeAtIndex<i, Ts...>; };
    template <size_t i, typename std::enable_if<(i < sizeof...(Ts)), int>::type = 0> static void to(const C& x, Val& v)
    {
        if (x.index() == i) { v.alt = (int)i; v.kids.resize(1); Cv<typename At<i>::type>::to(fast_ber::get<i>(x), v.kids[0]); return; }
        to<i + 1>(x, v);
    }
    template <size_t i, typename std::enable_if<(i == sizeof...(Ts)), int>::type = 0> static void to(const C&, Val& v) { v.kids.resize(1); v.alt = -1; }
    template <size_t i, typename std::enable_if<(i < sizeof...(Ts)), int>::type = 0> static void from(const Val& v, C& x, int st)
    {
        if (v.alt == (int)i) { Cv<typename At<i>::type>::from(v.kids[0], open_choice<i>(x, st), st); return; }
        from<i + 1>(v, x, st);
    }
    template <size_t i, typename std::enable_if<(i == sizeof...(Ts)), int>::type = 0> static void from(const Val&, C&, int) {}
    template <size_t i, typename std::enable_if<(i < sizeof...(Ts)), int>::type = 0> static void fields(Body* b)
    {
        b->fields.push_back(BField{"alt" + std::to_string(i), Cv<typename At<i>::type>::use(), M_MANDATORY, Val()});
        fields<i + 1>(b);
    }
    template <size_t i, typename std::enable_if<(i == sizeof...(Ts)), int>::type = 0> static void fields(Body*) {}
    // c = a copy of, or a reference to, its own alternative
    template <size_t i, typename std::enable_if<(i < sizeof...(Ts)), int>::type = 0> static void self(C& x)
    {
        if (x.index() == i) { self_one<i>(x, std::integral_constant<bool, C::template ExactlyOnce<typename At<i>::type>::value>()); return; }
        self<i + 1>(x);
    }
    template <size_t i, typename std::enable_if<(i == sizeof...(Ts)), int>::type = 0> static void self(C&) {}
    template <size_t i> static void self_one(C& x, std::true_type) { x = fast_ber::get<i>(x); }
    template <size_t i> static void self_one(C&, std::false_type) {}
};
// A choice as the compiler defines it: untagged, with the alternatives' own identifiers
template <StorageMode s, class... Ts> struct TheChoice : Choice<Choices<Ts...>, typename Choices<Ts...>::DefaultIdentifier, s>
{
    using B = Choice<Choices<Ts...>, typename Choices<Ts...>::DefaultIdentifier, s>;
    using B::B;
    using B::operator=;
    TheChoice() = default;
    TheChoice(const TheChoice&) = default;
    TheChoice(TheChoice&&) = default;
    TheChoice& operator=(const TheChoice&) = default;
    TheChoice& operator=(TheChoice&&) = default;
    size_t       encoded_length() const noexcept { return this->encoded_length_old(); }
    EncodeResult encode(absl::Span<uint8_t> b) const noexcept { return this->encode_old(b); }
    DecodeResult decode(BerView v) noexcept { return this->decode_old(v); }
    using All = Alts<TheChoice, Ts...>;
};
template <StorageMode s, class... Ts> struct Cv<TheChoice<s, Ts...>>
{
    using X = TheChoice<s, Ts...>;
    using A = Alts<X, Ts...>;
    static void to(const X& x, Val& v) { A::template to<0>(x, v); }
    static void from(const Val& v, X& x, int st) { A::template from<0>(v, x, st); }
    static Use  use() { static Body* b = nullptr; if (!b) { b = body(K_CHOICE); A::template fields<0>(b); } return Use{{}, b}; }
};
template <> struct Cv<Any<>>
{
    using X = Any<>;
    using A = Alts<X, BitString<>, Boolean<>, CharacterString<>, Date<>, DateTime<>, Duration<>, GeneralizedTime<>, Integer<>, Null<>, ObjectIdentifier<>, OctetString<>,
                   Real<>, Time<>, TimeOfDay<>, UTCTime<>, VisibleString<>>;
    static void to(const X& x, Val& v) { A::template to<0>(x, v); }
    static void from(const Val& v, X& x, int st) { A::template from<0>(v, x, st); }
    static Use  use() { static Body* b = nullptr; if (!b) { b = body(K_CHOICE); A::template fields<0>(b); } return Use{{}, b}; }
};

// The harness's own allocations do not fail and are not counted
struct Off
{
    bool was = g_alloc.on;
    Off() { g_alloc.on = false; }
    ~Off() { g_alloc.on = was; }
};
Val    gen_off(const Use& u, uint64_t seed, int size) { Off o; return gen_value(u, seed, size); }
template <class T> T make_off(const Val& v, int st)
{
    Off o;
    T   t;
    Cv<T>::from(v, t, st);
    return t;
}
template <class T> Val val_of(const T& x) { Val v; Cv<T>::to(x, v); return v; }
template <class T> bool is(const T& x, const Val& v, std::string* w) { return val_equal(Cv<T>::use(), val_of(x), v, w); }
#define EXPECT(cond) do { if (!(cond)) { m.error = #cond; return m; } } while (0)

// --------------------------------------------------------------------------------------- operations of one type only
template <class T> struct Mut
{
    static Mutation    mutate(T&, Val&, bool&, Rng&) { return Mutation{}; }
    static std::string observe(const T&, const Val&) { return ""; }
};
template <UniversalTag t, class I> struct Mut<StringImpl<t, I>>
{
    using T = StringImpl<t, I>;
    static Mutation mutate(T& x, Val& v, bool& known, Rng& r)
    {
        Mutation    m;
        std::string s;
        {
            Off o;
            s.reserve(v.s.size() + 64);
            s = v.s;
        }
        const size_t n = s.size();
        switch (r.below(14))
        {
        case 0: case 1:
        {
            m.op = "resize";
            size_t k = r.chance(1, 3) ? 120 + r.below(16) : r.chance(1, 4) ? 250 + r.below(12) : r.below(r.chance(1, 8) ? 70000 : 110);
            x.resize(k);
            s.resize(k, '\0');
            break;
        }
        case 2: m.op = "index"; for (size_t k = 0; k < 5 && n; k++) { size_t p = r.below(n); x[p] = (uint8_t)r.next(); s[p] = (char)x[p]; } break;
        case 3: case 4:
        {
            m.op = "assign own part";
            size_t p = r.below(n + 1), l = r.below(n - p + 1);
            if (r.chance(1, 3)) l = n - p;
            switch (r.below(4))
            {
            case 0: x = absl::string_view(x).substr(p, l); break;
            case 1: x.assign(absl::string_view(x).substr(p, l)); break;
            case 2: x.assign(x.span().subspan(p, l)); break;
            default: x = absl::Span<const uint8_t>(x.span().subspan(p, l)); break;
            }
            s = s.substr(p, l);
            break;
        }
        case 5: m.op = "assign itself"; x.assign(x); break;
        case 6:
        {
            m.op = "const char*";
            s = std::string(r.below(140), (char)('a' + r.below(26)));
            if (r.chance(1, 2)) x = s.c_str(); else x = T(s.c_str());
            break;
        }
        case 7: m.op = "iterate"; { uint8_t k = (uint8_t)r.next(); for (uint8_t& c : x) c ^= k; for (char& c : s) c = (char)(c ^ k); } break;
        case 8: m.op = "c_str"; for (size_t k = 0; k < n; k += 1 + n / 4) { x.c_str()[k] = 'Q'; s[k] = 'Q'; } break;
        case 9: m.op = "append"; { std::string e(r.below(60), 'z'); x = x.value() + e; s += e; } break;
        case 10:
        {
            m.op = "from span";
            s.clear();
            for (size_t k = r.below(200); k--;) s += (char)r.next();
            x = T(absl::Span<const uint8_t>((const uint8_t*)s.data(), s.size()));
            break;
        }
        case 11:
        {
            m.op = "grow and shrink";
            x.resize(n + 1 + r.below(200));
            x.resize(n);
            break;
        }
        case 12:
        {
            m.op = "shrink and grow";
            size_t k = r.below(n + 1);
            x.resize(k);
            x.resize(n);
            s.resize(k);
            s.resize(n, '\0');
            break;
        }
        default: m.op = "data"; if (n) { std::memset(x.data(), 'd', n); s.assign(n, 'd'); }
        }
        v.s   = s;
        known = true;
        return m;
    }
    static std::string observe(const T& x, const Val& v)
    {
        const std::string& s = v.s;
        if (x.size() != s.size() || x.length() != s.size() || x.empty() != s.empty() || x.span().size() != s.size() || (size_t)(x.end() - x.begin()) != s.size()) return "length";
        if (!(x == s) || x != s || !(x == absl::string_view(s)) || x != absl::string_view(s)) return "comparison with its value";
        if (s.find('\0') == std::string::npos && (!(x == s.c_str()) || x != s.c_str())) return "comparison with const char*";
        if (absl::string_view(x) != s || std::string(x.c_str(), x.size()) != s || !std::equal(x.begin(), x.end(), (const uint8_t*)s.data())) return "content";
        if (!s.empty() && (x[0] != (uint8_t)s[0] || x[s.size() - 1] != (uint8_t)s.back())) return "[]";
        if (x == s + "x" || x == std::string("x") + s) return "comparison with another value";
        return "";
    }
};
template <class I> struct Mut<Integer<I>>
{
    using T = Integer<I>;
    static Mutation mutate(T& x, Val& v, bool& known, Rng& r)
    {
        Mutation m;
        static const int64_t edge[] = {0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 8388607, 8388608, -8388608, -8388609, 2147483647, 2147483648, -2147483648ll,
                                       -2147483649ll, 549755813887ll, 549755813888ll, 140737488355327ll, 140737488355328ll, 36028797018963967ll, 36028797018963968ll, -36028797018963968ll, -36028797018963969ll, INT64_MAX, INT64_MIN};
        switch (r.below(4))
        {
        case 0: v.i = edge[r.below(31)]; x = v.i; m.op = "="; break;
        case 1: v.i = edge[r.below(31)]; x.assign(v.i); m.op = "assign"; break;
        case 2: v.i = (int64_t)((uint64_t)v.i + (r.chance(1, 2) ? 1 : ~0ull)); x = (int64_t)((uint64_t)x.value() + (uint64_t)v.i - (uint64_t)x.value()); m.op = "step"; break;
        default: x.assign(x); m.op = "assign itself"; break;
        }
        known = true;
        return m;
    }
    static std::string observe(const T& x, const Val& v)
    {
        if (!(x == v.i) || x != v.i || x == v.i + (v.i == INT64_MAX ? -1 : 1)) return "comparison";
        return "";
    }
};
template <class I> struct Mut<Boolean<I>>
{
    using T = Boolean<I>;
    static Mutation mutate(T& x, Val& v, bool& known, Rng& r)
    {
        Mutation m;
        m.op = "flip";
        v.i = !v.i;
        if (r.chance(1, 2)) x = v.i != 0; else x.assign(!x.value());
        known = true;
        return m;
    }
    static std::string observe(const T& x, const Val& v) { return (bool)x == (v.i != 0) && x.value() == (v.i != 0) ? "" : "bool"; }
};
template <class I> struct Mut<ObjectIdentifier<I>>
{
    using T = ObjectIdentifier<I>;
    static Mutation mutate(T& x, Val& v, bool& known, Rng& r)
    {
        Mutation m;
        ObjectIdentifierComponents c;
        if (r.chance(1, 2))
        {
            m.op = "assign";
            c    = {1, 3, (int64_t)r.below(1000)};
            if (r.chance(1, 2)) c = {2, (int64_t)(INT64_MAX - 80), INT64_MAX, 0, 127, 128, 16383, 16384};
            EXPECT(x.assign(c));
            v.oid.assign(c.begin(), c.end());
            known = true;
        }
        else
        {
            m.op = "assign invalid";
            switch (r.below(5))
            {
            case 0: c = {1}; break;
            case 1: c = {}; break;
            case 2: c = {3, 1, 1}; break;
            case 3: c = {1, 40, 1}; break;
            default: c = {1, 2, -5, 7}; break;
            }
            EXPECT(!x.assign(c));
            v.oid.clear();
            EXPECT(x.value().empty());
            EXPECT(x.number_of_components() == 0);
            known = false;
        }
        return m;
    }
    static std::string observe(const T& x, const Val& v)
    {
        if (x.number_of_components() != v.oid.size()) return "number_of_components";
        for (size_t i = 0; i < v.oid.size(); i++) if (x.component_number(i) != v.oid[i]) return "component_number";
        if (x.component_number(v.oid.size()) != -1) return "component_number behind the end";
        if (!(x == ObjectIdentifierComponents(v.oid.begin(), v.oid.end()))) return "comparison";
        return "";
    }
};
template <class I> struct Mut<GeneralizedTime<I>>
{
    using T = GeneralizedTime<I>;
    static Mutation mutate(T& x, Val& v, bool& known, Rng& r)
    {
        Mutation m;
        v.i = r.range(-62135596800L, 253402300799L);
        if (r.chance(1, 3)) { m.op = "civil"; v.alt = 1; v.s = civil_text(v.i, false); x.set_time(absl::CivilSecond(1970, 1, 1, 0, 0, 0) + v.i); }
        else { m.op = "universal"; v.alt = 0; v.s = civil_text(v.i, true); x.set_time(absl::FromUnixSeconds(v.i)); }
        EXPECT(x.time() == absl::FromUnixSeconds(v.i));
        EXPECT(x.string() == v.s);
        EXPECT(x.format() == (v.alt ? T::TimeFormat::local : T::TimeFormat::universal));
        known = true;
        return m;
    }
    static std::string observe(const T&, const Val&) { return ""; }
};
template <class I> struct Mut<Enumerated<Colour, I>>
{
    using T = Enumerated<Colour, I>;
    static Mutation mutate(T& x, Val& v, bool& known, Rng& r)
    {
        static const Colour k[] = {Colour::red, Colour::green, Colour::blue, Colour::huge};
        Mutation m;
        Colour   c = k[r.below(4)];
        switch (r.below(3))
        {
        case 0: m.op = "="; x = c; break;
        case 1: m.op = "assign"; x.assign(c); break;
        default: m.op = "assign itself"; x.assign(x); c = x.value(); break;
        }
        v.i   = (long long)c;
        known = true;
        return m;
    }
    static std::string observe(const T& x, const Val& v) { return x == static_cast<Colour>(v.i) && !(x != static_cast<Colour>(v.i)) && (long long)x.value() == v.i ? "" : "comparison"; }
};
template <class I> struct Mut<Real<I>>
{
    using T = Real<I>;
    static Mutation mutate(T& x, Val& v, bool& known, Rng& r)
    {
        Mutation m;
        static const double k[] = {0.0, 1.5, -2.25, 1e300, 1e-300, 3.0, 1024.0, 0.1};
        if (r.chance(1, 3)) { m.op = "assign itself"; x.assign(x); }
        else { m.op = "="; v.d = k[r.below(8)]; x = v.d; }
        known = true;
        return m;
    }
    static std::string observe(const T& x, const Val& v) { return (double)x == v.d || v.d != v.d ? "" : "operator double"; }
};
template <class T, class I, StorageMode s> struct Mut<SequenceOf<T, I, s>>
{
    using X    = SequenceOf<T, I, s>;
    using Impl = typename X::Implementation;
    static Val gen(Rng& r) { return gen_off(Cv<T>::use(), r.next(), 1 + (int)r.below(4)); }
    static T   make(const Val& v) { return make_off<T>(v, (int)v.kids.size()); }
    static Mutation mutate(X& x, Val& v, bool& known, Rng& r)
    {
        Mutation m;
        auto&        k = v.kids;
        const size_t n = k.size();
        switch (r.below(16))
        {
        case 0: { m.op = "push_back"; Val e = gen(r); x.push_back(make(e)); k.push_back(e); break; }
        case 1: { m.op = "emplace_back"; x.emplace_back(); Val e = gen(r); Cv<T>::from(e, x.back(), 3); k.push_back(e); break; }
        case 2: m.op = "pop_back"; if (n) { x.pop_back(); k.pop_back(); } break;
        case 3: { m.op = "insert"; size_t p = r.below(n + 1); Val e = gen(r); x.insert(x.begin() + (long)p, make(e)); k.insert(k.begin() + (long)p, e); break; }
        case 4: m.op = "erase"; if (n) { size_t p = r.below(n); x.erase(x.begin() + (long)p); k.erase(k.begin() + (long)p); } break;
        case 5: { m.op = "erase range"; size_t p = r.below(n + 1), q = p + r.below(n - p + 1); x.erase(x.begin() + (long)p, x.begin() + (long)q); k.erase(k.begin() + (long)p, k.begin() + (long)q); break; }
        case 6: { m.op = "resize"; size_t q = r.below(12); x.resize(q); Val d = val_of(T()); k.resize(q, d); break; }
        case 7: m.op = "clear"; x.clear(); k.clear(); break;
        case 8: { m.op = "swap"; X y; Val e = gen(r); y.push_back(make(e)); x.swap(y); x.swap(y); swap(static_cast<Impl&>(x), static_cast<Impl&>(y)); EXPECT(y.size() == n); x.swap(y); EXPECT(y.size() == 1 && val_equal(Cv<T>::use(), val_of(y[0]), e)); break; }
        case 9: m.op = "reserve"; x.reserve(r.below(40)); break;
        case 10: m.op = "push_back own element"; if (n) { size_t p = r.below(n); x.push_back(x[p]); k.push_back(Val(k[p])); } break;
        case 11: { m.op = "assign n"; Val e = gen(r); size_t q = r.below(9); x.assign(q, make(e)); k.assign(q, e); break; }
        case 12: m.op = "element"; if (n) { size_t p = r.below(n); Val e = gen(r); if (r.chance(1, 2)) x[p] = make(e); else Cv<T>::from(e, x[p], 5); k[p] = e; } break;
        case 13: { m.op = "from implementation"; Impl i(x.begin(), x.end()); if (r.chance(1, 2)) x = X(i); else x = X(std::move(i)); break; }
        case 14: { m.op = "move element"; if (n) { size_t p = r.below(n); X y; y.push_back(std::move(x[p])); EXPECT(val_equal(Cv<T>::use(), val_of(y[0]), k[p])); x[p] = std::move(y[0]); } break; }
        default: { m.op = "reassign"; X y(x); x.clear(); x = std::move(y); break; }
        }
        known = true;
        return m;
    }
    static std::string observe(const X& x, const Val& v)
    {
        if (x.size() != v.kids.size() || x.empty() != v.kids.empty()) return "size";
        X y(x);
        if (!(y == x) || y != x) { if (!has_nan(Cv<X>::use(), v)) return "comparison with a copy"; }
        y.emplace_back();
        if (y == x || !(y != x)) return "comparison with a longer list";
        return "";
    }
};
template <class T, StorageMode s> struct Mut<Optional<T, s>>
{
    using X = Optional<T, s>;
    static Mutation mutate(X& x, Val& v, bool& known, Rng& r)
    {
        Mutation m;
        Val      e = gen_off(Cv<T>::use(), r.next(), 1 + (int)r.below(9));
        T        t = make_off<T>(e, 1);
        switch (r.below(9))
        {
        case 0: m.op = "emplace"; { T& q = x.emplace(); EXPECT(&q == &*x); v = val_of(T()); } break;
        case 1: m.op = "emplace value"; x.emplace(t); v = e; break;
        case 2: m.op = "= empty"; x = empty; v = Val(); v.present = false; known = true; return m;
        case 3: m.op = "= value"; x = t; v = e; break;
        case 4: m.op = "* = value"; if (!x.has_value()) x.emplace(); *x = t; v = e; break;
        case 5: m.op = "= X(value)"; x = X(t); v = e; break;
        case 6: m.op = "= own value"; if (x.has_value()) x = *x; return m;
        case 7: m.op = "emplace own value"; if (x.has_value()) { T c(*x); x.emplace(c); } return m;
        default: m.op = "= X()"; x = X(); v = Val(); v.present = false; known = true; return m;
        }
        v.present = true;
        known     = true;
        return m;
    }
    static std::string observe(const X& x, const Val& v)
    {
        if (x.has_value() != v.present || bool(x) != v.present) return "has_value";
        if (!v.present) return "";
        std::string w;
        if (!is(*x, v, &w) || !is(*x.operator->(), v, &w)) return "value " + w;
        if (has_nan(Cv<T>::use(), v)) return "";
        if (!(x == *x) || (x != *x)) return "comparison with its value";
        return "";
    }
};
template <class T, class D> struct Mut<Default<T, D>>
{
    using X = Default<T, D>;
    static Mutation mutate(X& x, Val& v, bool& known, Rng& r)
    {
        Mutation m;
        Val      e = gen_off(Cv<T>::use(), r.next(), 1 + (int)r.below(9)), d = Dv<D>::v();
        if (r.chance(1, 3)) e = d;
        T t = make_off<T>(e, 1);
        e.present = !is(T(D::get_value()), e, nullptr);
        switch (r.below(8))
        {
        case 0: m.op = "set_to_default"; x.set_to_default(); v = d; v.present = false; EXPECT(x.is_default()); break;
        case 1: m.op = "= default"; x = D::get_value(); v = d; v.present = false; EXPECT(x.is_default()); break;
        case 2: m.op = "= value"; x = t; v = e; break;
        case 3: m.op = "= X(value)"; x = X(t); v = e; break;
        case 4: m.op = "= own value"; x = T(x.get()); v.present = v.present && !is(T(D::get_value()), v, nullptr); break;
        case 5: m.op = "= X(default)"; x = X(D::get_value()); v = d; v.present = false; break;
        case 6: m.op = "= raw"; x = t.value(); v = e; break;
        default: m.op = "= X()"; x = X(); v = d; v.present = false; break;
        }
        EXPECT(x.is_default() == !v.present);
        known = true;
        return m;
    }
    static std::string observe(const X& x, const Val& v)
    {
        if (x.is_default() == v.present) return "is_default";
        std::string w;
        if (!is(x.get(), v, &w)) return "get " + w;
        if (has_nan(Cv<T>::use(), v)) return "";
        if (!(x == x.get()) || x != x.get()) return "comparison with its value";
        if (!(x.value() == x.get().value())) return "value";
        if ((x == T(D::get_value())) != is(T(D::get_value()), v, nullptr) && Cv<T>::use().body->kind != K_REAL) return "comparison with the default";
        return "";
    }
};
template <StorageMode s, class... Ts> struct Mut<TheChoice<s, Ts...>>
{
    using X = TheChoice<s, Ts...>;
    static Mutation mutate(X& x, Val& v, bool& known, Rng& r)
    {
        Mutation m;
        if (v.alt < 0) { m.op = "emplace"; x.template emplace<0>(); v = val_of(x); known = true; return m; }
        switch (r.below(3))
        {
        case 0: m.op = "= own alternative"; X::All::template self<0>(x); break;
        case 1: { m.op = "swap"; X y; Val w = gen_off(Cv<X>::use(), r.next(), 3); Cv<X>::from(w, y, 7); x.swap(y); EXPECT(is(y, v, nullptr)); EXPECT(is(x, w, nullptr)); v = w; break; }
        default: { m.op = "copy and emplace"; X y(x); x.template emplace<0>(); EXPECT(x.index() == 0); x = y; break; }
        }
        known = true;
        return m;
    }
    static std::string observe(const X& x, const Val& v) { return x.valueless_by_exception() == (v.alt < 0) ? "" : "valueless_by_exception"; }
};
template <> struct Mut<Any<>>
{
    using X = Any<>;
    static Mutation mutate(X& x, Val& v, bool& known, Rng& r)
    {
        Mutation m;
        switch (r.below(6))
        {
        case 0: m.op = "= own alternative"; Cv<X>::A::template self<0>(x); return m;
        case 1: m.op = "= Integer"; x = Integer<>(77); v = Val(); v.alt = 7; v.kids = {VI(77)}; EXPECT(holds_alternative<Integer<>>(x)); break;
        case 2: m.op = "= OctetString"; x = OctetString<>("octets"); v = Val(); v.alt = 10; v.kids = {VS("octets")}; EXPECT(fast_ber::get<OctetString<>>(x) == "octets"); break;
        case 3: m.op = "emplace"; x.emplace<1>(true); v = Val(); v.alt = 1; v.kids = {VI(1)}; EXPECT(fast_ber::get_if<7>(&x) == nullptr); EXPECT(fast_ber::get_if<1>(&x) && fast_ber::get_if<1>(&x)->value()); break;
        case 4: m.op = "emplace string"; x.emplace<0>(std::string(200, 'b')); v = Val(); v.alt = 0; v.kids = {VS(std::string(200, 'b').c_str())}; break;
        default: m.op = "swap"; { X y; Val w = gen_off(Cv<X>::use(), r.next(), 3); Cv<X>::from(w, y, 7); x.swap(y); EXPECT(is(y, v, nullptr)); v = w; } break;
        }
        known = true;
        return m;
    }
    static std::string observe(const X&, const Val&) { return ""; }
};

// ------------------------------------------------------------------------------------------------------ registration
template <class T> struct ModeOf { static int mode() { return M_MANDATORY; } static Val def() { return Val(); } };
template <class T, StorageMode s> struct ModeOf<Optional<T, s>> { static int mode() { return M_OPTIONAL; } static Val def() { return Val(); } };
template <class T, class D> struct ModeOf<Default<T, D>> { static int mode() { return M_DEFAULT; } static Val def() { return Dv<D>::v(); } };

template <class T> struct Fn
{
    static Mutation mutate(void* p, Val& v, bool& known, uint64_t seed)
    {
        Rng r(seed);
        return Mut<T>::mutate(*static_cast<T*>(p), v, known, r);
    }
    static std::string observe(const void* p, const Val& v) { return Mut<T>::observe(*static_cast<const T*>(p), v); }
};
template <class T> size_t add(const char* name)
{
    LifeType l;
    l.type = registry().size();
    l.mode = ModeOf<T>::mode();
    l.def  = ModeOf<T>::def();
    l.mutate  = Fn<T>::mutate;
    l.observe = Fn<T>::observe;
    add_type<T, Cv<T>>(name, Cv<T>::use());
    life_types().push_back(l);
    return life_types().size() - 1;
}
template <class D, class S> void cross_ac(void* d, void* s, int how) // assignment, construction, construction from an rvalue
{
    D& x = *static_cast<D*>(d);
    S& y = *static_cast<S*>(s);
    switch (how)
    {
    case 0: x = y; break;
    case 1: { D t(y); x = t; break; }
    default: { D t(std::move(y)); x = std::move(t); break; }
    }
}
template <class D, class S> void cross_c(void* d, void* s, int)
{
    D t(*static_cast<S*>(s));
    *static_cast<D*>(d) = t;
}
template <class D> void cross_row(size_t, const std::vector<size_t>&, size_t) {}
template <class D, class S, class... Ss> void cross_row(size_t d, const std::vector<size_t>& ids, size_t k)
{
    if (ids[k] != d) life_crosses().push_back(Cross{d, ids[k], cross_ac<D, S>, 3, true});
    cross_row<D, Ss...>(d, ids, k + 1);
}
template <class... Ts> struct Family
{
    template <class... Ds, typename std::enable_if<sizeof...(Ds) == 0, int>::type = 0> static void rows(const std::vector<size_t>&, size_t) {}
    template <class D, class... Ds> static void rows(const std::vector<size_t>& ids, size_t k)
    {
        cross_row<D, Ts...>(ids[k], ids, 0);
        rows<Ds...>(ids, k + 1);
    }
    static void all(const std::vector<size_t>& ids) { rows<Ts...>(ids, 0); }
};
template <class... Ts> std::vector<size_t> family(std::initializer_list<const char*> names)
{
    std::vector<size_t> ids;
    auto                it = names.begin();
    (void)std::initializer_list<int>{(ids.push_back(add<Ts>(*it++)), 0)...};
    Family<Ts...>::all(ids);
    return ids;
}
} // namespace

void register_library_types()
{
    family<OctetString<>, UTF8String<Ctx3>, BitString<Expl<UniversalTag::bit_string>>, VisibleString<Priv>, IA5String<Far<UniversalTag::ia5_string>>, OctetString<Ctx0>>(
        {"lib.OctetString", "lib.UTF8String-3", "lib.BitString-7e", "lib.VisibleString-p", "lib.IA5String-e", "lib.OctetString-0"});
    family<Integer<>, Integer<App40>, Integer<Expl<UniversalTag::integer>>>({"lib.Integer", "lib.Integer-a40", "lib.Integer-7e"});
    family<Boolean<>, Boolean<Ctx3>, Boolean<Far<UniversalTag::boolean>>>({"lib.Boolean", "lib.Boolean-3", "lib.Boolean-e"});
    family<Real<>, Real<Ctx3>, Real<Expl<UniversalTag::real>>>({"lib.Real", "lib.Real-3", "lib.Real-7e"});
    family<Enumerated<Colour>, Enumerated<Colour, Priv>, Enumerated<Colour, Expl<UniversalTag::enumerated>>>({"lib.Enumerated", "lib.Enumerated-p", "lib.Enumerated-7e"});
    family<Null<>, Null<Ctx0>, Null<Expl<UniversalTag::null>>>({"lib.Null", "lib.Null-0", "lib.Null-7e"});
    add<ObjectIdentifier<>>("lib.ObjectIdentifier");
    add<ObjectIdentifier<Expl<UniversalTag::object_identifier>>>("lib.ObjectIdentifier-7e");
    add<GeneralizedTime<>>("lib.GeneralizedTime");
    add<GeneralizedTime<Expl<UniversalTag::generalized_time>>>("lib.GeneralizedTime-7e");
    {
        using D = StorageMode;
        using A = SequenceOf<OctetString<>>;
        using B = SequenceOf<OctetString<>, Ctx3, D::dynamic>;
        using C = SequenceOf<OctetString<>, Expl<UniversalTag::sequence>, D::dynamic>;
        size_t a = add<A>("lib.SequenceOf-small"), b = add<B>("lib.SequenceOf-dynamic-3"), c = add<C>("lib.SequenceOf-dynamic-7e");
        life_crosses().push_back(Cross{a, b, cross_c<A, B>, 1, false});
        life_crosses().push_back(Cross{b, a, cross_c<B, A>, 1, false});
        life_crosses().push_back(Cross{c, a, cross_c<C, A>, 1, false});
        life_crosses().push_back(Cross{b, c, cross_c<B, C>, 1, false});
        add<SequenceOf<Integer<Ctx0>>>("lib.SequenceOf-Integer");
        add<SequenceOf<SequenceOf<Integer<>>, Priv>>("lib.SequenceOf-SequenceOf");
        add<SequenceOf<Real<>, ExplicitId<UniversalTag::sequence>, D::dynamic>>("lib.SequenceOf-Real-dynamic");
        add<Optional<Integer<Ctx0>>>("lib.Optional-Integer");
        add<Optional<OctetString<>>>("lib.Optional-OctetString");
        add<Optional<OctetString<Ctx3>, D::dynamic>>("lib.Optional-dynamic");
        add<Optional<A>>("lib.Optional-SequenceOf");
        add<Optional<A, D::dynamic>>("lib.Optional-SequenceOf-dynamic");
        add<Default<Integer<>, Dint>>("lib.Default-Integer");
        add<Default<UTF8String<Ctx3>, Dstr>>("lib.Default-String");
        add<Default<Boolean<Ctx0>, Dbool>>("lib.Default-Boolean");
        add<Default<Enumerated<Colour>, Denum>>("lib.Default-Enumerated");
        add<Default<Real<>, Dreal>>("lib.Default-Real");
        add<TheChoice<D::static_, Integer<>, OctetString<>, SequenceOf<OctetString<>>, Boolean<Ctx3>>>("lib.Choice-static");
        add<TheChoice<D::dynamic, Integer<>, OctetString<>, SequenceOf<OctetString<>>, Boolean<Ctx3>>>("lib.Choice-dynamic");
        add<Any<>>("lib.Any");
    }
}
