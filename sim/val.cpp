#include "val.hpp"

#include <algorithm>
#include <cmath>
#include <cstdio>
#include <limits>

std::string hex(const uint8_t* p, size_t n)
{
    static const char* d = "0123456789abcdef";
    std::string        s;
    for (size_t i = 0; i < n; i++) { s += d[p[i] >> 4]; s += d[p[i] & 15]; }
    return s;
}
Bytes unhex(const std::string& s)
{
    Bytes b;
    auto  v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
    for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back((uint8_t)(v(s[i]) * 16 + v(s[i + 1])));
    return b;
}

std::string Val::str() const
{
    std::string r;
    if (!present) return "-";
    if (undef) return "?";
    if (!s.empty()) r += "'" + hex((const uint8_t*)s.data(), s.size()) + "'";
    if (i) r += std::to_string(i);
    if (d != 0) { char b[40]; snprintf(b, sizeof b, "%a", d); r += b; }
    for (auto c : oid) r += "." + std::to_string(c);
    if (alt) r += "#" + std::to_string(alt);
    if (!kids.empty()) { r += "{"; for (auto& k : kids) r += k.str() + ","; r += "}"; }
    return r.empty() ? "0" : r;
}

// ---------------------------------------------------------------------------------------------------------- values
std::string civil_text(int64_t t, bool utc)
{
    int64_t days = t / 86400, sec = t % 86400;
    if (sec < 0) { sec += 86400; days--; }
    // days since 1970-01-01 to a proleptic Gregorian date, counted year by year blocks of 400
    int64_t n = days + 719162; // days since 0001-01-01
    int64_t y400 = n / 146097; n %= 146097; if (n < 0) { n += 146097; y400--; }
    int64_t year = 1 + y400 * 400;
    auto    leap = [](int64_t y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; };
    while (n >= (leap(year) ? 366 : 365)) { n -= leap(year) ? 366 : 365; year++; }
    static const int md[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    int m = 0;
    while (n >= md[m] + (m == 1 && leap(year))) { n -= md[m] + (m == 1 && leap(year)); m++; }
    char b[80];
    snprintf(b, sizeof b, "%04d%02d%02d%02d%02d%02d%s", (int)year, m + 1, (int)n + 1, (int)(sec / 3600),
             (int)(sec / 60 % 60), (int)(sec % 60), utc ? "Z" : "");
    return b;
}

static std::string gen_string(Rng& r, int size)
{
    static const size_t edges[] = {0, 1, 2, 3, 5, 84, 95, 96, 97, 98, 99, 100, 101, 102, 110, 125, 126, 127, 128, 129, 130, 200, 255, 256, 257, 1000};
    size_t n;
    if (size <= 0) n = 0;
    else if (size >= 4 && r.chance(1, 3)) n = edges[r.below(sizeof edges / sizeof *edges)];
    else n = r.below(size * 3 + 1);
    if (size >= 8 && r.chance(1, 60)) n = 65530 + r.below(20);
    std::string s(n, 'a');
    int mode = (int)r.below(4);
    for (auto& c : s) c = mode == 0 ? (char)r.below(256) : mode == 1 ? (char)(32 + r.below(95)) : mode == 2 ? (char)('a' + r.below(3)) : (char)(r.chance(1, 2) ? 0 : 0xff);
    return s;
}
static int64_t gen_int(Rng& r, int size)
{
    if (size <= 0) return 0;
    switch (r.below(4))
    {
    case 0: return r.range(-3, 3);
    case 1: { int b = (int)r.below(64); int64_t e = (int64_t)((uint64_t)1 << b); int64_t x = (int64_t)((uint64_t)e + (uint64_t)r.range(-1, 1)); return r.chance(1, 2) ? x : (int64_t)(0 - (uint64_t)x); }
    case 2: return (int64_t)(r.next() >> r.below(64));
    default: return (int64_t)r.next() >> r.below(64);
    }
}
static double gen_real(Rng& r, int size)
{
    if (size <= 0) return 0;
    switch (r.below(6))
    {
    case 0: { static const double k[] = {0.0, 1.0, -1.0, 0.5, 2.0, 10.0, 0.1, 1e10, 3.14159265358979, 1e300, 1e-300, -0.0, 5523432.12323}; return k[r.below(13)]; }
    case 1: { static const double k[] = {std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::max(), std::numeric_limits<double>::min(), -std::numeric_limits<double>::max()}; return k[r.below(6)]; }
    case 2: return (double)r.range(-100000, 100000);
    case 3: return std::ldexp((double)(r.next() >> 11), (int)r.range(-1000, 900));
    case 4: return -std::ldexp((double)(r.next() >> (11 + r.below(50))), (int)r.range(-200, 200));
    default: return (double)r.range(-1000000, 1000000) / 1000.0;
    }
}

static bool is_default_value(const BField& f, const Val& v)
{
    return val_equal(f.use, v, f.def);
}

static Val gen_rec(const Use& u, Rng& r, int size, int depth)
{
    Val         v;
    const Body& b = *u.body;
    switch (b.kind)
    {
    case K_BOOL: v.i = size > 0 && r.chance(1, 2); break;
    case K_INT: v.i = gen_int(r, size); break;
    case K_ENUM:
        v.i = b.enums[size > 0 ? r.below(b.enums.size()) : 0].second;
        if (size >= 7 && r.chance(1, 12)) v.i = r.range(-2000000000, 2000000000);
        break;
    case K_REAL: v.d = gen_real(r, size); break;
    case K_NUL: break;
    case K_STR: v.s = gen_string(r, size); break;
    case K_OID:
    {
        int64_t first = (int64_t)r.below(3);
        v.oid         = {first, (int64_t)(first < 2 ? r.below(40) : r.chance(1, 3) ? r.next() >> (2 + r.below(61)) : r.below(200))};
        if (v.oid[1] > INT64_MAX - 80) v.oid[1] = 999;
        size_t n = size > 0 ? r.below(size > 5 ? 14 : 5) : 0;
        while (n--) v.oid.push_back(r.chance(1, 4) ? (int64_t)(r.next() >> (1 + r.below(62))) : (int64_t)r.below(300));
        break;
    }
    case K_GTIME:
        v.i = size <= 0 ? 0 : r.chance(1, 8) ? r.range(-62135596800L, 253402300799L) : r.range(0, 4102444800L);
        v.alt = size > 2 && r.chance(1, 4);
        v.s = civil_text(v.i, v.alt == 0);
        break;
    case K_SEQ:
    case K_SET:
        for (const BField& f : b.fields)
        {
            bool want = f.mode == M_MANDATORY || (size > 0 && depth < 12 && r.chance(depth < 4 ? 3 : 1, depth < 4 ? 5 : 6));
            if (want)
            {
                v.kids.push_back(gen_rec(f.use, r, f.mode == M_MANDATORY ? std::max(0, size - (depth > 5)) : size - (depth > 1), depth + 1));
                if (f.mode == M_DEFAULT && is_default_value(f, v.kids.back())) want = false;
            }
            if (!want)
            {
                if (v.kids.size() < (size_t)(&f - b.fields.data()) + 1) v.kids.emplace_back();
                if (f.mode == M_DEFAULT) v.kids.back() = f.def;
                v.kids.back().present = false;
            }
        }
        break;
    case K_CHOICE:
    {
        size_t n = b.fields.size();
        v.alt    = size > 0 ? (int)r.below(n) : 0;
        if (depth > 9) v.alt = 0;
        v.kids.push_back(gen_rec(b.fields[v.alt].use, r, size - (depth > 3), depth + 1));
        break;
    }
    case K_SEQOF:
    case K_SETOF:
    {
        size_t n = size <= 0 || depth > 10 ? 0 : r.below(depth < 2 ? 3 + size : depth < 4 ? 4 : 3);
        if (size >= 7 && depth == 0 && r.chance(1, 10)) n = 60 + r.below(80);
        while (n--) v.kids.push_back(gen_rec(b.elem, r, size - 1 - (depth > 2), depth + 1));
        break;
    }
    }
    return v;
}

Val gen_value(const Use& u, uint64_t seed, int size)
{
    Rng r(seed);
    return gen_rec(u, r, size, 0);
}

bool val_equal(const Use& u, const Val& a, const Val& b, std::string* where)
{
    auto fail = [&](const std::string& s) { if (where) *where = s + where->c_str(); return false; };
    if (a.undef || b.undef) return true;
    switch (u.body->kind)
    {
    case K_BOOL: return (a.i != 0) == (b.i != 0) || fail("bool");
    case K_INT:
    case K_ENUM: return a.i == b.i || fail(std::to_string(a.i) + " != " + std::to_string(b.i));
    case K_REAL: return a.d == b.d || (a.d != a.d && b.d != b.d) || fail("real " + VD(a.d).str() + " != " + VD(b.d).str());
    case K_NUL: return true;
    case K_STR:
    case K_GTIME: return a.s == b.s || fail("'" + hex((const uint8_t*)a.s.data(), std::min<size_t>(a.s.size(), 40)) + "' != '" + hex((const uint8_t*)b.s.data(), std::min<size_t>(b.s.size(), 40)) + "'");
    case K_OID: return a.oid == b.oid || fail("oid");
    case K_SEQ:
    case K_SET:
        if (a.kids.size() != b.kids.size()) return fail("member count");
        for (size_t i = 0; i < a.kids.size(); i++)
        {
            const BField& f = u.body->fields[i];
            const Val *   x = &a.kids[i], *y = &b.kids[i];
            if (f.mode == M_OPTIONAL && x->present != y->present) return fail("." + f.name + " presence " + (x->present ? "1/0" : "0/1"));
            if (f.mode == M_DEFAULT) { if (!x->present) x = &f.def; if (!y->present) y = &f.def; }
            else if (!x->present) continue;
            if (!val_equal(f.use, *x, *y, where)) return fail("." + f.name + " ");
        }
        return true;
    case K_CHOICE:
        if (a.alt != b.alt) return fail("alternative " + std::to_string(a.alt) + " != " + std::to_string(b.alt));
        if (a.alt < 0) return true;
        return val_equal(u.body->fields[a.alt].use, a.kids[0], b.kids[0], where) || fail("#" + std::to_string(a.alt) + " ");
    case K_SEQOF:
    case K_SETOF:
        if (a.kids.size() != b.kids.size()) return fail("size " + std::to_string(a.kids.size()) + " != " + std::to_string(b.kids.size()));
        for (size_t i = 0; i < a.kids.size(); i++)
            if (!val_equal(u.body->elem, a.kids[i], b.kids[i], where)) return fail("[" + std::to_string(i) + "] ");
        return true;
    }
    return false;
}

bool has_real(const Use& u, const Val& v)
{
    const Body& b = *u.body;
    if (!v.present) return false;
    if (b.kind == K_REAL) return true;
    if (b.kind == K_SEQ || b.kind == K_SET)
        for (size_t i = 0; i < v.kids.size(); i++) if (has_real(b.fields[i].use, v.kids[i])) return true;
    if (b.kind == K_CHOICE && v.alt >= 0 && has_real(b.fields[v.alt].use, v.kids[0])) return true;
    if (b.kind == K_SEQOF || b.kind == K_SETOF)
        for (auto& k : v.kids) if (has_real(b.elem, k)) return true;
    return false;
}

template <class F> static bool any_node(const Use& u, const Val& v, F f)
{
    if (!v.present) return false;
    if (f(u, v)) return true;
    const Body& b = *u.body;
    if (b.kind == K_SEQ || b.kind == K_SET)
        for (size_t i = 0; i < v.kids.size(); i++) if (any_node(b.fields[i].use, v.kids[i], f)) return true;
    if (b.kind == K_CHOICE && v.alt >= 0 && any_node(b.fields[v.alt].use, v.kids[0], f)) return true;
    if (b.kind == K_SEQOF || b.kind == K_SETOF)
        for (auto& k : v.kids) if (any_node(b.elem, k, f)) return true;
    return false;
}
bool has_nan(const Use& u, const Val& v)
{
    return any_node(u, v, [](const Use& x, const Val& y) { return x.body->kind == K_REAL && y.d != y.d; });
}
bool has_valueless(const Use& u, const Val& v)
{
    return any_node(u, v, [](const Use& x, const Val& y) { return x.body->kind == K_CHOICE && y.alt < 0; });
}
bool has_extension(const Use& u, const Val& v)
{
    return any_node(u, v, [](const Use& x, const Val&) { return x.body->ext && x.body->kind != K_CHOICE; });
}

// --------------------------------------------------------------------------------------------------------- encoder
static void put_tag(Bytes& o, TagN t, bool constructed)
{
    uint8_t first = (uint8_t)(t.cls << 6 | (constructed ? 0x20 : 0));
    if (t.num < 31) { o.push_back((uint8_t)(first | t.num)); return; }
    o.push_back(first | 31);
    uint8_t tmp[12]; int n = 0;
    for (uint64_t x = (uint64_t)t.num; n == 0 || x; x >>= 7) tmp[n++] = x & 0x7f;
    while (n--) o.push_back((uint8_t)(tmp[n] | (n ? 0x80 : 0)));
}
static void put_len(Bytes& o, size_t len, int pad)
{
    if (pad < 0 && len < 128) { o.push_back((uint8_t)len); return; }
    int n = 0;
    for (size_t x = len; x; x >>= 8) n++;
    if (n == 0) n = 1;
    if (pad > 0) n = std::min(8, n + pad);
    o.push_back((uint8_t)(0x80 | n));
    while (n--) o.push_back(n >= 8 ? 0 : (uint8_t)(len >> (8 * n)));
}
void put_tlv(Bytes& o, TagN t, bool constructed, const Bytes& c, int pad)
{
    put_tag(o, t, constructed);
    put_len(o, c.size(), pad);
    o.insert(o.end(), c.begin(), c.end());
}

static Bytes int_bytes(int64_t x)
{
    Bytes b;
    for (int i = 7; i >= 0; i--) b.push_back((uint8_t)((uint64_t)x >> (8 * i)));
    size_t k = 0;
    while (k < 7 && ((b[k] == 0 && !(b[k + 1] & 0x80)) || (b[k] == 0xff && (b[k + 1] & 0x80)))) k++;
    return Bytes(b.begin() + (long)k, b.end());
}
static Bytes oid_bytes(const std::vector<int64_t>& c)
{
    Bytes b;
    for (size_t i = 1; i < c.size(); i++)
    {
        uint64_t x = i == 1 ? (uint64_t)c[0] * 40 + (uint64_t)c[1] : (uint64_t)c[i];
        uint8_t  tmp[12]; int n = 0;
        do tmp[n++] = x & 0x7f; while (x >>= 7);
        while (n--) b.push_back((uint8_t)(tmp[n] | (n ? 0x80 : 0)));
    }
    return b;
}
static Bytes real_bytes(double d, Rng* r)
{
    if (d != d) return {0x42};
    if (std::isinf(d)) return {(uint8_t)(d > 0 ? 0x40 : 0x41)};
    if (d == 0) return std::signbit(d) ? Bytes{0x43} : Bytes{};
    bool neg = d < 0;
    int  e;
    double   m = std::frexp(std::fabs(d), &e);
    uint64_t n = (uint64_t)std::ldexp(m, 53);
    e -= 53;
    while (!(n & 1)) { n >>= 1; e++; }
    if (r && r->chance(1, 3))
    {   // decimal forms, for values which they represent exactly
        if (std::fabs(d) < 1e9 && d == std::floor(d))
        {
            char b[80];
            switch (r->below(3))
            {
            case 0: snprintf(b, sizeof b, "\x01%.0f", d); break;
            case 1: snprintf(b, sizeof b, "\x02%.1f", d); break;
            default: snprintf(b, sizeof b, "\x03%.0f.E0", d); break;
            }
            return Bytes(b, b + strlen(b));
        }
    }
    int base = 2, f = 0;
    if (r)
    {
        int want = (int)r->below(4);
        if (want == 1) { base = 8; }
        if (want == 2) { base = 16; }
        int bits = base == 2 ? 1 : base == 8 ? 3 : 4;
        if (base != 2)
        {
            f = (int)(((e % bits) + bits) % bits); // 2^f * base^E * N
            if (f && r->chance(1, 2) && n < (uint64_t)1 << 50) { n <<= f; e -= f; f = 0; }
        }
        if (base == 2 && r->chance(1, 3)) f = (int)r->below(4);
        e = (e - f) / bits;
        // mantissa shifted left
        if (base == 2 && r->chance(1, 2)) { int k = (int)r->below(6); if (n < (uint64_t)1 << 50) { n <<= k; e -= k; } }
    }
    Bytes eb = int_bytes(e), out;
    if (r && r->chance(1, 3)) // longer exponent
    {
        size_t to = eb.size() + 1;
        // first nine bits must not all be equal (8.5.7.4 d) unless the length octet form is used, so keep to legal ones
        bool legal = false;
        (void)to;
        (void)legal;
    }
    uint8_t first = (uint8_t)(0x80 | (neg ? 0x40 : 0) | (base == 8 ? 0x10 : base == 16 ? 0x20 : 0) | f << 2);
    if (eb.size() <= 3 && !(r && r->chance(1, 5))) { first |= (uint8_t)(eb.size() - 1); out.push_back(first); }
    else { first |= 3; out.push_back(first); out.push_back((uint8_t)eb.size()); }
    out.insert(out.end(), eb.begin(), eb.end());
    Bytes nb;
    for (uint64_t x = n; x; x >>= 8) nb.insert(nb.begin(), (uint8_t)x);
    if (r && nb.size() < 7 && r->chance(1, 4)) nb.insert(nb.begin(), 0);
    out.insert(out.end(), nb.begin(), nb.end());
    return out;
}

struct AltCtx
{
    Rng*      r     = nullptr;
    uint64_t* forms = nullptr;
    uint64_t  allow = ~0ull;
    bool use(AltForm f, unsigned den)
    {
        if (!r || !(allow >> f & 1) || !r->chance(1, den)) return false;
        *forms |= 1ull << f;
        return true;
    }
};
// An element with an identifier which none of the schemas uses
static Bytes unknown_element(Rng& r, int depth)
{
    Bytes out, c;
    bool  constructed = depth < 3 && r.chance(1, 3);
    if (constructed) for (size_t n = r.below(4); n--;) { Bytes k = unknown_element(r, depth + 1); c.insert(c.end(), k.begin(), k.end()); }
    else for (size_t n = r.chance(1, 5) ? r.below(300) : r.below(6); n--;) c.push_back((uint8_t)r.below(256));
    static const int cls[] = {1, 2, 3, 3};
    put_tlv(out, TagN{cls[r.below(4)], (int64_t)(7000 + (r.chance(1, 3) ? r.below(1000000) : r.below(20)))}, constructed, c, r.chance(1, 6) ? (int)r.below(3) : -1);
    return out;
}
static void enc(const Use& u, const Val& v, Bytes& out, AltCtx& a);
static void wrap(const Use& u, bool constructed, const Bytes& content, Bytes& out, AltCtx& a)
{
    Bytes c = content;
    for (size_t k = u.tags.size(); k-- > 0;)
    {
        Bytes o;
        int   pad = -1;
        if (a.use(A_LONG_LEN, 5)) pad = 0;
        else if (a.use(A_PAD_LEN, 6)) pad = (int)a.r->range(1, 7);
        put_tlv(o, u.tags[k], constructed || k + 1 < u.tags.size(), c, pad);
        c.swap(o);
    }
    out.insert(out.end(), c.begin(), c.end());
}
static void enc(const Use& u, const Val& v, Bytes& out, AltCtx& a)
{
    const Body& b = *u.body;
    Bytes       c;
    bool        constructed = false;
    switch (b.kind)
    {
    case K_BOOL: c = {(uint8_t)(v.i ? 0xff : 0)}; if (v.i && a.use(A_BOOL, 2)) c[0] = (uint8_t)a.r->range(1, 255); break;
    case K_INT:
    case K_ENUM:
        c = int_bytes(v.i);
        if (c.size() < 8 && a.use(A_INT_PAD, 4)) c.insert(c.begin(), (size_t)a.r->range(1, 8 - (long)c.size()), (uint8_t)(v.i < 0 ? 0xff : 0));
        break;
    case K_REAL:
    {
        bool alt = a.use(A_REAL, 1);
        c = real_bytes(v.d, alt ? a.r : nullptr);
        break;
    }
    case K_NUL: break;
    case K_STR:
    case K_GTIME: c.assign(v.s.begin(), v.s.end()); break;
    case K_OID: c = oid_bytes(v.oid); break;
    case K_SEQ:
    case K_SET:
    {
        constructed = true;
        std::vector<Bytes> parts;
        for (size_t i = 0; i < b.fields.size(); i++)
        {
            const BField& f = b.fields[i];
            const Val*    x = &v.kids[i];
            if (!x->present)
            {
                if (f.mode != M_DEFAULT || !a.use(A_EXPL_DEFAULT, 2)) continue;
                x = &f.def;
            }
            parts.emplace_back();
            enc(f.use, *x, parts.back(), a);
        }
        if (b.kind == K_SET && parts.size() > 1 && a.use(A_SET_ORDER, 2))
            for (size_t i = parts.size(); i > 1; i--) std::swap(parts[i - 1], parts[a.r->below(i)]);
        if (b.ext && a.use(A_UNKNOWN, 2))
            for (size_t n = 1 + a.r->below(3); n--;)
                parts.insert(parts.begin() + (long)(b.kind == K_SET ? a.r->below(parts.size() + 1) : parts.size()), unknown_element(*a.r, 0));
        for (auto& p : parts) c.insert(c.end(), p.begin(), p.end());
        break;
    }
    case K_CHOICE: constructed = true; enc(b.fields[v.alt].use, v.kids[0], c, a); break;
    case K_SEQOF:
    case K_SETOF: constructed = true; for (auto& k : v.kids) enc(b.elem, k, c, a); break;
    }
    wrap(u, constructed, c, out, a);
}
Bytes ref_encode(const Use& u, const Val& v)
{
    Bytes  out;
    AltCtx a;
    enc(u, v, out, a);
    return out;
}
Bytes ref_encode_alt(const Use& u, const Val& v, uint64_t seed, uint64_t& forms, uint64_t allow)
{
    Bytes  out;
    Rng    r(seed);
    AltCtx a;
    a.r = &r; a.forms = &forms; a.allow = allow;
    enc(u, v, out, a);
    return out;
}

// --------------------------------------------------------------------------------------------------------- decoder
Tlv parse_tlv(const uint8_t* p, size_t n)
{
    Tlv t;
    if (n < 1) return t;
    size_t k = 1;
    t.cls = p[0] >> 6; t.constructed = p[0] & 0x20; t.num = p[0] & 31;
    if (t.num == 31)
    {
        uint64_t x = 0; bool over = false, first = true;
        for (;; k++)
        {
            if (k >= n) return t;
            if (first && p[k] == 0x80) t.odd = true;
            first = false;
            if (x >> 56) over = true;
            x = x << 7 | (p[k] & 0x7f);
            if (!(p[k] & 0x80)) { k++; break; }
        }
        if (over || (int64_t)x < 0) return t; // does not fit
        t.num = (int64_t)x;
        if (t.num < 31) t.odd = true;
    }
    if (k >= n) return t;
    uint8_t l = p[k++];
    uint64_t len = l;
    if (l == 0x80 || l == 0xff) return t;
    if (l & 0x80)
    {
        size_t c = l & 0x7f;
        if (c > n - k) return t;
        len = 0;
        for (size_t i = 0; i < c; i++) { if (len >> 56) return t; len = len << 8 | p[k++]; }
        if (c > 8) t.odd = true;
    }
    if (len > n - k) return t;
    t.ok = true; t.hl = k; t.cl = (size_t)len;
    return t;
}

void collect_tlvs(const uint8_t* p, size_t off, size_t len, std::vector<std::pair<size_t, Tlv>>& out, int depth)
{
    while (len && depth < 40)
    {
        Tlv t = parse_tlv(p + off, len);
        if (!t.ok) return;
        out.push_back({off, t});
        if (t.constructed) collect_tlvs(p, off + t.hl, t.cl, out, depth + 1);
        off += t.hl + t.cl; len -= t.hl + t.cl;
    }
}

static bool matches(const Use& u, int cls, int64_t num, int depth = 0)
{
    if (!u.tags.empty()) return u.tags[0].cls == cls && u.tags[0].num == num;
    if (depth > 20) return false;
    for (auto& f : u.body->fields) if (matches(f.use, cls, num, depth + 1)) return true;
    return false;
}

static bool real_value(const uint8_t* p, size_t n, double& d)
{
    if (n == 0) { d = 0; return true; }
    if (p[0] & 0x80)
    {
        size_t k = 1, el = (size_t)(p[0] & 3) + 1;
        if (el == 4) { if (n < 2) return false; el = p[1]; k = 2; }
        if (el == 0 || el > 4 || n < k + el) return false;
        if (el > 1 && ((p[k] == 0 && !(p[k + 1] & 0x80)) || (p[k] == 0xff && (p[k + 1] & 0x80)))) return false; // 8.5.7.4
        int64_t e = (int8_t)p[k];
        for (size_t i = 1; i < el; i++) e = (int64_t)((uint64_t)e << 8) | p[k + i];
        k += el;
        if (n - k > 7 || n == k) return false;
        uint64_t m = 0;
        while (k < n) m = m << 8 | p[k++];
        if (m >> 53) return false;
        int base = p[0] >> 4 & 3;
        if (base == 3) return false;
        int64_t ee = e * (base == 0 ? 1 : base == 1 ? 3 : 4) + (p[0] >> 2 & 3);
        if (ee > 1100 || ee < -1100) return false;
        d = std::ldexp((double)m, (int)ee);
        if (std::isinf(d) || (m && std::fabs(d) < std::numeric_limits<double>::min())) return false;
        if (p[0] & 0x40) d = -d;
        return true;
    }
    if (p[0] & 0x40)
    {
        if (n != 1) return false;
        switch (p[0])
        {
        case 0x40: d = std::numeric_limits<double>::infinity(); return true;
        case 0x41: d = -std::numeric_limits<double>::infinity(); return true;
        case 0x42: d = std::numeric_limits<double>::quiet_NaN(); return true;
        case 0x43: d = -0.0; return true;
        }
        return false;
    }
    if (p[0] < 1 || p[0] > 3 || n < 2) return false;
    std::string s((const char*)p + 1, n - 1);
    // only the plain forms which the reference encoder produces
    size_t i = 0, digits = 0;
    if (s[i] == '-') i++;
    while (i < s.size() && s[i] >= '0' && s[i] <= '9') { i++; digits++; }
    if (digits == 0 || digits > 12) return false;
    std::string rest = s.substr(i);
    if (p[0] == 1 ? !rest.empty() : p[0] == 2 ? rest != ".0" : rest != ".E0") return false;
    d = (double)strtoll(s.c_str(), nullptr, 10);
    return true;
}

struct Dec
{
    bool        strict = true;
    std::string why;
    bool        no(const char* w) { if (why.empty()) why = w; return false; }

    bool dec(const Use& u, const uint8_t* p, size_t n, Val& v, size_t& used, int depth)
    {
        Tlv t = parse_tlv(p, n);
        if (!t.ok) return no("no complete packet");
        if (t.odd) strict = false;
        used = t.hl + t.cl;
        if (u.tags.empty())
        {
            for (size_t i = 0; i < u.body->fields.size(); i++)
                if (matches(u.body->fields[i].use, t.cls, t.num))
                {
                    v.alt = (int)i;
                    v.kids.resize(1);
                    size_t x;
                    return dec(u.body->fields[i].use, p, n, v.kids[0], x, depth + 1);
                }
            return no("unknown alternative");
        }
        const uint8_t* c  = p;
        size_t         cn = n;
        for (size_t k = 0; k < u.tags.size(); k++)
        {
            Tlv x = parse_tlv(c, cn);
            if (!x.ok) return no("no complete inner packet");
            if (x.odd) strict = false;
            if (x.cls != u.tags[k].cls || x.num != u.tags[k].num) return no("wrong identifier");
            if (k > 0 && x.hl + x.cl != cn) strict = false; // octets after the explicitly tagged packet
            bool last = k + 1 == u.tags.size();
            bool constructed = !last || u.body->kind >= K_SEQ;
            if (x.constructed != constructed) return no("wrong construction");
            c += x.hl; cn = x.cl;
        }
        return content(u, c, cn, v, depth);
    }

    bool content(const Use& u, const uint8_t* c, size_t n, Val& v, int depth)
    {
        const Body& b = *u.body;
        switch (b.kind)
        {
        case K_BOOL: if (n != 1) return no("boolean length"); v.i = c[0] != 0; return true;
        case K_NUL: if (n) return no("null length"); return true;
        case K_INT:
        case K_ENUM:
        {
            if (n == 0) { strict = false; v.undef = true; return true; }
            int64_t x = (int8_t)c[0];
            for (size_t i = 1; i < n; i++)
            {
                if (x > (INT64_MAX >> 8) || x < (INT64_MIN >> 8)) return no("integer too big");
                x = (int64_t)((uint64_t)x << 8) | c[i];
            }
            if (n > 8) strict = false;
            v.i = x;
            if (b.kind == K_ENUM && (x > INT32_MAX || x < INT32_MIN)) { strict = false; v.undef = true; }
            return true;
        }
        case K_REAL:
            if (n > 100) strict = false;
            if (!real_value(c, n, v.d)) { strict = false; v.undef = true; }
            return true;
        case K_STR: v.s.assign((const char*)c, n); return true;
        case K_GTIME:
            v.s.assign((const char*)c, n);
            if (n != 14 && !(n == 15 && c[14] == 'Z')) strict = false;
            for (size_t i = 0; i < n && i < 14; i++) if (c[i] < '0' || c[i] > '9') strict = false;
            return true;
        case K_OID:
        {
            if (n == 0 || (c[n - 1] & 0x80)) { strict = false; v.undef = true; return true; }
            uint64_t x = 0; bool first = true;
            for (size_t i = 0; i < n; i++)
            {
                if (first && c[i] == 0x80) { strict = false; v.undef = true; return true; }
                first = false;
                if (x >> 56) { strict = false; v.undef = true; return true; }
                x = x << 7 | (c[i] & 0x7f);
                if (c[i] & 0x80) continue;
                if (v.oid.empty())
                {
                    int64_t a = x < 40 ? 0 : x < 80 ? 1 : 2;
                    v.oid = {a, (int64_t)(x - (uint64_t)a * 40)};
                }
                else v.oid.push_back((int64_t)x);
                x = 0; first = true;
            }
            return true;
        }
        case K_SEQ:
        {
            v.kids.resize(b.fields.size());
            size_t k = 0;
            for (size_t i = 0; i < b.fields.size(); i++)
            {
                const BField& f = b.fields[i];
                Tlv           t = parse_tlv(c + k, n - k);
                bool          m = t.ok && matches(f.use, t.cls, t.num);
                if (!m && f.mode != M_MANDATORY)
                {
                    if (f.mode == M_DEFAULT) v.kids[i] = f.def;
                    v.kids[i].present = false;
                    continue;
                }
                if (!m) return no("missing mandatory member");
                size_t used = 0;
                if (!dec(f.use, c + k, n - k, v.kids[i], used, depth + 1)) return false;
                k += used;
            }
            if (k < n)
            {
                if (b.fields.empty()) { strict = false; return true; }
                if (!parse_tlv(c + k, n - k).ok) return no("malformed member");
                if (!b.ext) strict = false;
                while (k < n) { Tlv t = parse_tlv(c + k, n - k); if (!t.ok || t.odd) { strict = false; break; } k += t.hl + t.cl; }
            }
            return true;
        }
        case K_SET:
        {
            v.kids.resize(b.fields.size());
            std::vector<int> count(b.fields.size());
            size_t           k = 0;
            if (b.fields.empty()) { if (n) strict = false; return true; }
            while (k < n)
            {
                Tlv t = parse_tlv(c + k, n - k);
                if (!t.ok) return no("malformed element");
                size_t i = 0;
                while (i < b.fields.size() && !matches(b.fields[i].use, t.cls, t.num)) i++;
                if (i == b.fields.size())
                {
                    if (!b.ext) return no("unknown element in set");
                    k += t.hl + t.cl;
                    if (t.odd) strict = false;
                    continue;
                }
                if (count[i]++) return no("repeated element");
                size_t used = 0;
                if (!dec(b.fields[i].use, c + k, n - k, v.kids[i], used, depth + 1)) return false;
                k += used;
            }
            for (size_t i = 0; i < b.fields.size(); i++)
                if (!count[i])
                {
                    if (b.fields[i].mode == M_MANDATORY) return no("missing mandatory element");
                    if (b.fields[i].mode == M_DEFAULT) v.kids[i] = b.fields[i].def;
                    v.kids[i].present = false;
                }
            return true;
        }
        case K_CHOICE: // explicitly tagged
        {
            Tlv t = parse_tlv(c, n);
            if (!t.ok) return no("no alternative");
            if (t.hl + t.cl != n) strict = false;
            size_t used;
            Use    inner; inner.body = u.body;
            return dec(inner, c, n, v, used, depth + 1);
        }
        case K_SEQOF:
        case K_SETOF:
            for (size_t k = 0; k < n;)
            {
                size_t used = 0;
                v.kids.emplace_back();
                if (!dec(b.elem, c + k, n - k, v.kids.back(), used, depth + 1)) return false;
                k += used;
            }
            return true;
        }
        return false;
    }
};

RefDecode ref_decode(const Use& u, const uint8_t* p, size_t n)
{
    Dec       d;
    RefDecode r;
    r.ok     = d.dec(u, p, n, r.val, r.consumed, 0);
    r.strict = r.ok && d.strict;
    r.why    = d.why;
    return r;
}
