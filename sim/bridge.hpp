// Conversions between library objects and Val, and registration. Included by the emitted bridge_<group>.cpp only.
#pragma once
#include "reg.hpp"

#include "fast_ber/ber_types/All.hpp"

#include <sstream>
#include <type_traits>

namespace
{
thread_local uint32_t g_style = 0;
// How a value is put into an object varies from place to place
inline uint32_t style(uint32_t n) { g_style = g_style * 1664525u + 1013904223u; return (g_style >> 16) % n; }

template <class X> void tvp_BOOL(const X& x, Val& v) { v.i = x.value() ? 1 : 0; }
template <class X> void tvp_INT(const X& x, Val& v) { v.i = x.value(); }
template <class X, class M> void tvp_ENUM(const X& x, Val& v, const M& names)
{
    v.i = static_cast<long long>(x.value());
    for (const auto& n : names)
        if (n.first == x.value()) { v.i = n.second; break; }
}
template <class X> void tvp_REAL(const X& x, Val& v) { v.d = x.value(); }
template <class X> void tvp_NUL(const X&, Val&) {}
template <class X> void tvp_STR(const X& x, Val& v) { v.s = x.value(); }
template <class X> void tvp_OID(const X& x, Val& v) { auto c = x.value(); v.oid.assign(c.begin(), c.end()); }
template <class X> void tvp_GTIME(const X& x, Val& v) { v.s = x.string(); }

template <class X> void fvp_BOOL(const Val& v, X& x, int)
{
    switch (style(3)) { case 0: x = v.i != 0; break; case 1: x.assign(v.i != 0); break; default: x = X(v.i != 0); }
}
template <class X> void fvp_INT(const Val& v, X& x, int)
{
    switch (style(3)) { case 0: x = (int64_t)v.i; break; case 1: x.assign((int64_t)v.i); break; default: x = X((int64_t)v.i); }
}
template <class X, class M> void fvp_ENUM(const Val& v, X& x, const M& names, int)
{
    auto e = static_cast<typename X::Values>(v.i);
    for (const auto& n : names)
        if (n.second == v.i) { e = n.first; break; }
    switch (style(3)) { case 0: x = e; break; case 1: x.assign(e); break; default: x = X(e); }
}
template <class X> void fvp_REAL(const Val& v, X& x, int)
{
    switch (style(3)) { case 0: x = v.d; break; case 1: x.assign(v.d); break; default: x = X(v.d); }
}
template <class X> void fvp_NUL(const Val&, X&, int) {}
template <class X> void fvp_STR(const Val& v, X& x, int)
{
    switch (style(6))
    {
    case 0: x = v.s; break;
    case 1: x = absl::string_view(v.s); break;
    case 2: x.assign(absl::string_view(v.s)); break;
    case 3: x = absl::Span<const uint8_t>((const uint8_t*)v.s.data(), v.s.size()); break;
    case 4: x.resize(v.s.size()); for (size_t i = 0; i < v.s.size(); i++) x[i] = (uint8_t)v.s[i]; break;
    default: x = X(v.s); break;
    }
}
template <class X> void fvp_OID(const Val& v, X& x, int)
{
    fast_ber::ObjectIdentifierComponents c(v.oid.begin(), v.oid.end());
    switch (style(3)) { case 0: x = c; break; case 1: x.assign(c); break; default: x = X(c); }
}
template <class X> void fvp_GTIME(const Val& v, X& x, int)
{
    if (v.alt == 0)
    {
        if (style(2)) x = X(absl::FromUnixSeconds(v.i));
        else x.set_time(absl::FromUnixSeconds(v.i));
    }
    else x.set_time(absl::CivilSecond(1970, 1, 1, 0, 0, 0) + v.i);
}

template <class X> void clear_optional(X& x, int) { if (style(2)) x = fast_ber::empty; else x = X(); }
template <class X> auto open_optional(X& x, int) -> decltype(*x)
{
    if (!x.has_value() || style(2)) x.emplace();
    return *x;
}
template <size_t i, class X> auto open_choice(X& x, int) -> decltype(fast_ber::get<i>(x))
{
    if (x.index() != i || style(2)) x.template emplace<i>();
    return fast_ber::get<i>(x);
}
template <class X> void open_list(X& x, size_t n, int)
{
    switch (style(4))
    {
    case 0: x.clear(); x.resize(n); break;
    case 1: x.resize(n); break;
    case 2: x.clear(); x.reserve(n); break;
    default: x = X(); break;
    }
}
template <class X> auto list_elem(X& x, size_t i) -> decltype(x[i])
{
    if (i >= x.size()) x.emplace_back();
    return x[i];
}

template <class T, class Conv> struct Ops
{
    static T&       r(void* p) { return *static_cast<T*>(p); }
    static const T& r(const void* p) { return *static_cast<const T*>(p); }
    static void*    create() { return new T(); }
    static void     destroy(void* p) { delete static_cast<T*>(p); }
    static void*    copy(const void* p) { return new T(r(p)); }
    static void*    move(void* p) { return new T(std::move(r(p))); }
    static void     assign(void* a, const void* b) { r(a) = r(b); }
    static void     move_assign(void* a, void* b) { r(a) = std::move(r(b)); }
    static int      equal(const void* a, const void* b) { try { return r(a) == r(b); } catch (const std::runtime_error&) { return 2; } }
    static int      nequal(const void* a, const void* b) { try { return r(a) != r(b); } catch (const std::runtime_error&) { return 2; } }
    static size_t   encoded_length(const void* p, int api) { return api ? fast_ber::encoded_length(r(p)) : r(p).encoded_length(); }
    static bool     encode(const void* p, uint8_t* buf, size_t cap, size_t& len, int api)
    {
        fast_ber::EncodeResult e = api ? fast_ber::encode(absl::Span<uint8_t>(buf, cap), r(p)) : r(p).encode(absl::Span<uint8_t>(buf, cap));
        len                      = e.length;
        return e.success;
    }
    static bool decode(void* p, const uint8_t* d, size_t n, int api)
    {
        absl::Span<const uint8_t> s(d, n);
        switch (api)
        {
        case 0: return r(p).decode(fast_ber::BerView(s)).success;
        case 1: return fast_ber::decode(s, r(p)).success;
        case 2: { fast_ber::BerViewIterator it(s); return fast_ber::decode(it, r(p)).success; }
        default: return fast_ber::decode(fast_ber::BerView(s), r(p)).success;
        }
    }
    static size_t frame(const uint8_t* d, size_t n)
    {
        fast_ber::BerView v(absl::Span<const uint8_t>(d, n));
        return v.is_valid() ? v.ber_length() : 0;
    }
    static std::string print(const void* p)
    {
        std::ostringstream os;
        try { os << r(p); } catch (const std::runtime_error&) { return "runtime_error"; }
        return os.str();
    }
    static void to_val(const void* p, Val& v) { v = Val(); Conv::to(r(p), v); }
    static void from_val(const Val& v, void* p, int st) { g_style = (uint32_t)st * 2654435761u; Conv::from(v, r(p), st); }
};
template <class T, class Conv> void add_type(const char* name, Use use)
{
    using O = Ops<T, Conv>;
    TypeOps o;
    o.name = name; o.use = std::move(use); o.size = sizeof(T);
    o.create = O::create; o.destroy = O::destroy; o.copy = O::copy; o.move = O::move; o.assign = O::assign;
    o.move_assign = O::move_assign; o.equal = O::equal; o.nequal = O::nequal; o.encoded_length = O::encoded_length;
    o.encode = O::encode; o.decode = O::decode; o.frame = O::frame; o.print = O::print; o.to_val = O::to_val; o.from_val = O::from_val;
    registry().push_back(std::move(o));
}
} // namespace
