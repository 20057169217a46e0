#include "conclib.hpp"

#include "fast_ber/ber_types/All.hpp"
#include "fast_ber/util/BerContainer.hpp"
#include "fast_ber/util/BerView.hpp"

#include <sstream>

using namespace fast_ber;
const int CONC_OCTETS = 6, CONC_VALUES = 15;

namespace
{
uint64_t next(uint64_t& s)
{
    s          = s * 6364136223846793005ull + 1442695040888963407ull;
    uint64_t x = s ^ (s >> 31);
    return x * 0x9E3779B97F4A7C15ull >> 11;
}
template <class X> std::string wire(const X& x)
{
    std::vector<uint8_t> b(encoded_length(x));
    auto                 r = encode(absl::Span<uint8_t>(b.data(), b.size()), x);
    return std::to_string(r.success) + hex(b.data(), r.success ? r.length : 0);
}
// encoded, read again, printed
template <class X> std::string round(const X& x)
{
    std::ostringstream   o;
    std::vector<uint8_t> b(encoded_length(x));
    auto                 r = encode(absl::Span<uint8_t>(b.data(), b.size()), x);
    X                    y;
    auto                 d = decode(absl::Span<const uint8_t>(b.data(), b.size()), y);
    o << r.success << hex(b.data(), b.size()) << " " << d.success << (y == x) << " " << y;
    return o.str();
}
void walk(std::ostringstream& o, const BerView& v, int depth)
{
    o << "(" << v.is_valid();
    if (v.is_valid())
    {
        o << " " << v.tag() << "," << (int)v.class_() << "," << (int)v.construction() << "," << v.ber_length() << "," << v.header_length() << "," << v.content_length();
        if (v.construction() == Construction::constructed && depth < 40)
            for (const auto& k : v) { if (!k.is_valid()) break; walk(o, k, depth + 1); }
    }
    o << ")";
}
} // namespace

std::string conc_octets(const uint8_t* p, size_t n, int how)
{
    std::ostringstream o;
    BerView            v(absl::Span<const uint8_t>(p, n));
    switch (how)
    {
    case 0: o << v; break;
    case 1: walk(o, v, 0); break;
    case 2:
    {
        BerContainer c(v), d(c);
        c.assign_content(absl::Span<const uint8_t>(p, n));
        o << c.is_valid() << d.is_valid() << hex(d.ber().data(), d.ber().length()) << hex(c.ber().data(), c.ber().length());
        break;
    }
    case 3:
    {
        BerViewIterator i(absl::Span<const uint8_t>(p, n));
        for (int k = 0; k < 20 && i->is_valid(); k++, ++i) o << i->ber_length() << "/";
        break;
    }
    case 4:
    {
        if (!v.is_valid()) break;
        std::vector<uint8_t> b(v.ber_length());
        auto                 r = v.encode(absl::Span<uint8_t>(b.data(), b.size()));
        o << r.success << hex(b.data(), b.size()) << std::hash<std::string>()(std::string(b.begin(), b.end()));
        break;
    }
    default:
    {
        Any<> a;
        (void)a;
        OctetString<> s;
        GeneralizedTime<> t;
        Integer<> i;
        Real<> r;
        ObjectIdentifier<> d;
        o << s.decode(v).success << t.decode(v).success << i.decode(v).success << r.decode(v).success << d.decode(v).success;
        o << hex((const uint8_t*)s.data(), s.length()) << i << d;
        break;
    }
    }
    return o.str();
}
std::string conc_value(uint64_t s, int how)
{
    std::ostringstream o;
    switch (how)
    {
    case 0: for (int k = 0; k < 3; k++) o << round(Integer<>((int64_t)next(s) >> next(s) % 60)); break;
    case 1:
        for (int k = 0; k < 4; k++)
        {
            double d = (double)(int64_t)next(s) * (next(s) % 2 ? 1 : -1);
            for (uint64_t i = next(s) % 9; i--;) d = next(s) % 2 ? d / 3 : d * 7;
            o << round(Real<>(d));
        }
        break;
    case 2:
    {
        ObjectIdentifierComponents c{(int64_t)(next(s) % 3), (int64_t)(next(s) % 40)};
        for (uint64_t i = next(s) % 9; i--;) c.push_back((int64_t)(next(s) >> next(s) % 60));
        o << round(ObjectIdentifier<>(c));
        break;
    }
    case 3:
        for (int k = 0; k < 2; k++)
        {
            absl::Time         t = absl::FromUnixSeconds((int64_t)(next(s) % 253402300799ull));
            GeneralizedTime<>  g(t);
            GeneralizedTime<>  h;
            h.set_time(absl::CivilSecond(1970, 1, 1, 0, 0, 0) + (int64_t)(next(s) % 253402300799ull));
            o << g.string() << " " << h.string() << " " << absl::ToUnixSeconds(g.time()) << wire(g) << wire(h) << g;
        }
        break;
    case 4: { std::string t(next(s) % 300, 'a'); for (auto& x : t) x = (char)(32 + next(s) % 90); o << round(OctetString<>(t)) << round(UTF8String<>(t)); break; }
    case 5:
    {
        SequenceOf<Integer<>> l;
        for (uint64_t i = next(s) % 40; i--;) l.push_back((int64_t)next(s));
        SequenceOf<Integer<>> m = l;
        m.push_back((int64_t)1);
        o << round(l) << (l == m) << round(m);
        break;
    }
    case 6:
    {
        Choice<Choices<Integer<>, OctetString<>, Boolean<>>> c;
        switch (next(s) % 3) { case 0: c = Integer<>((int64_t)next(s)); break; case 1: c = OctetString<>(std::to_string(next(s))); break; default: c = Boolean<>(true); }
        auto d = c;
        o << c << (c == d) << d.index();
        break;
    }
    case 7:
        o << Id<Class::universal, 16>() << Class::application << Construction::constructed << UniversalTag::integer;
        for (int k = 0; k < 5; k++) { uint8_t b[12]; size_t n = encode_header(absl::Span<uint8_t>(b, 12), Construction::primitive, Class::private_, (Tag)(next(s) >> (11 + next(s) % 40)), next(s) >> (next(s) % 60)); o << hex(b, n); }
        break;
    case 8: // times with the difference from universal time
    case 13:
    case 12:
        for (int k = 0; k < 3; k++)
        {
            absl::Time        t = absl::FromUnixSeconds((int64_t)(next(s) % 200000000000ull + 1000000000));
            int               off = (int)(next(s) % 1439) - 719;
            GeneralizedTime<> g;
            if (how == 13) g.set_time(absl::UnixEpoch() + absl::Microseconds((int64_t)(next(s) >> 14)));
            else g.set_time(t, off);
            o << g.string();
            if (how == 12) o << wire(g) << g << absl::ToUnixSeconds(g.time());
        }
        break;
    case 9: // decimal and binary reals
        for (int k = 0; k < 4; k++)
        {
            std::string t = std::to_string((int64_t)next(s) >> next(s) % 60);
            switch (next(s) % 4) { case 0: t += "." + std::to_string(next(s) % 1000); break; case 1: t += ",5E" + std::to_string((int)(next(s) % 600) - 300); break; case 2: t = "  " + t + (next(s) % 2 ? "." : "x"); break; default: break; }
            std::vector<uint8_t> e{0x09, (uint8_t)(t.size() + 1), (uint8_t)(1 + next(s) % 3)};
            e.insert(e.end(), t.begin(), t.end());
            if (next(s) % 4 == 0)
            {
                e[2] = (uint8_t)(0x80 | next(s));
                for (size_t i = 3; i < e.size(); i++) e[i] = (uint8_t)next(s);
            }
            Real<> r;
            o << decode(absl::Span<const uint8_t>(e.data(), e.size()), r).success << " " << r << wire(r);
        }
        break;
    case 10: // texts of other kinds, and their containers
    {
        std::string t(next(s) % 200, 'a');
        for (auto& x : t) x = (char)('0' + next(s) % 10);
        PrintableString<> a(t);
        VisibleString<>   b(t);
        BitString<>       c(t);
        Null<>            n;
        o << round(a) << round(b) << round(c) << round(n);
        b.resize(next(s) % 300);
        o << hex((const uint8_t*)b.data(), b.length()) << wire(b);
        BerContainer k;
        k.resize_content(next(s) % 400);
        o << hex(k.ber().data(), k.ber().length());
        break;
    }
    case 11: // optional and default values, collections of collections
    {
        Optional<Integer<>> p, q((int64_t)next(s));
        Optional<OctetString<>> u(OctetString<>(std::to_string(next(s))));
        SequenceOf<SequenceOf<OctetString<>>> l;
        for (uint64_t i = next(s) % 5; i--;) { l.emplace_back(); for (uint64_t j = next(s) % 5; j--;) l.back().push_back(std::to_string(next(s))); }
        SequenceOf<SequenceOf<OctetString<>>> m = l, n = std::move(m);
        o << p << q << u << (p == q) << round(l) << (n == l);
        break;
    }
    default:
    {
        Integer<> i;
        std::vector<uint8_t> b(next(s) % 12);
        for (auto& x : b) x = (uint8_t)next(s);
        auto r = decode(absl::Span<const uint8_t>(b.data(), b.size()), i);
        o << r.success << i.value() << wire(Boolean<>(next(s) % 2)) << wire(Null<>());
        GeneralizedTime<>    g;
        std::string          t = "20" + std::to_string(100000000000ull + next(s) % 899999999999ull) + (next(s) % 2 ? "Z" : ".5Z");
        std::vector<uint8_t> e{0x18, (uint8_t)t.size()};
        e.insert(e.end(), t.begin(), t.end());
        o << decode(absl::Span<const uint8_t>(e.data(), e.size()), g).success;
        try { o << absl::ToUnixSeconds(g.time()); } catch (const std::exception& e) { o << "error " << e.what(); }
    }
    }
    return o.str();
}
