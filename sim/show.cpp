// The viewer world (C16): fast_ber_view runs in copies of this process on files which are torn, damaged or fine, while
// the simulator decides the outcome of every system call it makes on its input and its standard output.
// The real code: src/view/view.cpp, BerView with its stream output, and the types it prints.
#include "sys.hpp"

#include <algorithm>
#include <cerrno>
#include <cmath>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>

int sim_view_main(int argc, const char** argv);
extern "C" void sim_step_limit(uint64_t);

namespace
{
// -------------------------------------------------------------------------------------------- an independent printer
const char* universal_name(int64_t tag)
{
    static const char* const n[31] = {"Reserved", "Boolean", "Integer", "Bit String", "Octet String", "Null", "Object Identifier", "Object Descriptor", "Instance Of / External", "Real", "Enumerated",
                                      "Embedded PDV", "UTF8 String", "Relative OID", nullptr, nullptr, "Sequence / Sequence Of", "Set / Set Of", "Numeric String", "Printable String", "Teletex String / T161 String",
                                      "Videotex String", "IA5 String", "UTC Time", "Generalized Time", "Graphic String", "Visible String / ISO646 String", "General String", "Universal String", "Character String", "BMP String"};
    return tag >= 0 && tag < 31 && n[tag] ? n[tag] : "Unknown Universal Tag";
}
// Literal text, with places at which one of several texts, a number, or anything is right
struct Part
{
    enum What { TEXT, ANY, NUMBER } what;
    std::vector<std::string> texts;
    double                   number;
};
struct Expect
{
    std::vector<Part> parts;
    void text(const std::string& s)
    {
        if (!parts.empty() && parts.back().what == Part::TEXT && parts.back().texts.size() == 1) parts.back().texts[0] += s;
        else parts.push_back(Part{Part::TEXT, {s}, 0});
    }
    bool match(const std::string& s, size_t* at) const
    {
        size_t i = 0;
        for (auto& p : parts)
        {
            *at = i;
            if (p.what == Part::TEXT)
            {
                bool ok = false;
                for (auto& t : p.texts)
                {
                    if (s.compare(i, t.size(), t) == 0) { i += t.size(); ok = true; break; }
                    size_t k = 0;
                    while (k < t.size() && i + k < s.size() && s[i + k] == t[k]) k++;
                    *at = std::max(*at, i + k);
                }
                if (!ok) return false;
                continue;
            }
            size_t e = s.find(" }", i);
            if (e == std::string::npos) return false;
            if (p.what == Part::NUMBER)
            {
                std::string t = s.substr(i, e - i);
                char*       end;
                double      d = strtod(t.c_str(), &end);
                if (t.empty() || *end) return false;
                bool same = std::isnan(p.number) ? std::isnan(d) : d == p.number || std::fabs(d - p.number) <= 1e-5 * std::fabs(p.number);
                if (!same) return false;
            }
            i = e;
        }
        *at = i;
        return i == s.size();
    }
};
bool leap_year(int64_t y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
std::string quoted(const uint8_t* p, size_t n)
{
    for (size_t i = 0; i < n; i++) if (p[i] < 0x20 || p[i] > 0x7e) return "\"binary data\"";
    return "\"" + std::string((const char*)p, n) + "\"";
}
const Body* body(Kind k)
{
    static Body b[K_SETOF + 1];
    b[k].kind = k;
    return &b[k];
}
void primitive(Expect& x, const Tlv& t, const uint8_t* p) // p: the whole packet
{
    const uint8_t* c = p + t.hl;
    size_t         n = t.cl;
    std::string    q = quoted(c, n);
    if (t.cls != 0) { x.text(q); return; }
    switch (t.num)
    {
    case 1: x.text(n == 1 ? *c ? "true" : "false" : q); return;
    case 2: case 10:
    {
        if (n > 8) { x.text(q); return; }
        uint64_t v = n && (*c & 0x80) ? ~0ull : 0;
        for (size_t i = 0; i < n; i++) v = v << 8 | c[i];
        x.text(std::to_string((int64_t)v));
        return;
    }
    case 5: x.text(n ? q : "null"); return;
    case 6: case 9:
    {
        Use       u{{TagN{0, t.num}}, body(t.num == 6 ? K_OID : K_REAL)};
        RefDecode r = ref_decode(u, p, t.hl + n);
        if (!r.ok || !r.strict || r.val.undef) { x.parts.push_back(Part{Part::ANY, {}, 0}); return; }
        if (t.num == 9) { x.parts.push_back(Part{Part::NUMBER, {}, r.val.d}); return; }
        std::string s = "[";
        for (size_t i = 0; i < r.val.oid.size(); i++) s += (i ? ", " : "") + std::to_string(r.val.oid[i]);
        x.text(s + "]");
        return;
    }
    case 23: case 24:
    {
        std::string s((const char*)c, n);
        if (n < 10 || n > 23) { x.text(q); return; }
        int    form   = s[n - 1] == 'Z' ? 1 : s[n - 5] == '+' || s[n - 5] == '-' ? 2 : 0;
        size_t digits = n - (form == 1 ? 1 : form == 2 ? 5 : 0);
        bool   clean  = true;
        for (size_t i = 0; i < n; i++) if (s[i] < '0' || s[i] > '9') if (!(form == 1 && i == n - 1) && !(form == 2 && i == n - 5)) clean = false;
        if (!clean && digits != 14 && s.find_first_of(".,") == std::string::npos) { x.text(q); return; } // not a time
        if (!clean || digits != 14)
        {
            // fractions, or hours or minutes only: printed as the octets, or as the time which it is, but not as another
            if (s.find_first_of(".,") != std::string::npos || digits == 10 || digits == 12) { x.parts.push_back(Part{Part::ANY, {}, 0}); return; }
            x.text(q);
            return;
        }
        auto num = [&](size_t at, size_t len) { int v = 0; for (size_t i = at; i < at + len; i++) v = v * 10 + (s[i] - '0'); return v; };
        static const int md[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
        int y = num(0, 4), mo = num(4, 2), d = num(6, 2), h = num(8, 2), mi = num(10, 2), se = num(12, 2);
        if (mo < 1 || mo > 12 || d < 1 || d > md[mo - 1] + (mo == 2 && leap_year(y)) || h > 23 || mi > 59 || se > 60) { x.text(q); return; }
        if (form == 2 || se == 60 || y < 1000) { x.parts.push_back(Part{Part::ANY, {}, 0}); return; } // known finding of C13; leap seconds
        char b[60];
        snprintf(b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02d+00:00", y, mo, d, h, mi, se);
        x.text(b);
        return;
    }
    default: x.text(q); return;
    }
}
// false: the file does not start with a complete packet
bool expected(const Bytes& f, Expect& x)
{
    struct Level { size_t at, end; bool first; };
    std::vector<Level> levels;
    Tlv top = parse_tlv(f.data(), f.size());
    if (!top.ok) return false;
    levels.push_back(Level{0, top.hl + top.cl, true});
    while (!levels.empty())
    {
        Level& l = levels.back();
        Tlv    t = l.at < l.end ? parse_tlv(f.data() + l.at, l.end - l.at) : Tlv{};
        if (!t.ok)
        {
            levels.pop_back();
            if (!levels.empty()) x.text("] }");
            continue;
        }
        const uint8_t* p = f.data() + l.at;
        if (!l.first) x.text(", ");
        l.first = false;
        l.at += t.hl + t.cl;
        static const char* const cls[] = {"Universal", "Application", "Context Specific", "Private"};
        x.text("{ \"length\": " + std::to_string(t.hl + t.cl) + ", \"identifier\": { \"class\": \"" + cls[t.cls] + "\", \"tag\": ");
        if (t.cls == 0) x.text(std::string("\"") + universal_name(t.num) + "\"");
        else x.text(std::to_string(t.num));
        x.text(" }, \"content\": ");
        if (!t.constructed) { primitive(x, t, p); x.text(" }"); continue; }
        x.text("[");
        size_t at = (size_t)(p - f.data()) + t.hl;
        levels.push_back(Level{at, at + t.cl, true});
    }
    return true;
}

// -------------------------------------------------------------------------------------------------------------- files
Bytes content_of(Rng& r, int64_t tag)
{
    Bytes b;
    auto  str = [&](const std::string& s) { b.assign(s.begin(), s.end()); };
    auto  rnd = [&](size_t n) { while (n--) b.push_back((uint8_t)r.below(256)); };
    if (r.chance(1, 12)) { rnd(r.below(30)); return b; }
    switch (tag)
    {
    case 1: rnd(1); if (r.chance(1, 2)) b[0] = r.chance(1, 2) ? 0xff : 0; break;
    case 2: case 10: rnd(r.chance(1, 8) ? 9 + r.below(20) : r.below(9)); break;
    case 5: break;
    case 6: { Use u{{TagN{0, 6}}, body(K_OID)}; Bytes e = ref_encode(u, gen_value(u, r.next(), (int)r.below(6))); Tlv t = parse_tlv(e.data(), e.size()); b.assign(e.begin() + (long)t.hl, e.end()); break; }
    case 9: { Use u{{TagN{0, 9}}, body(K_REAL)}; uint64_t f = 0; Bytes e = ref_encode_alt(u, gen_value(u, r.next(), (int)r.below(6)), r.next(), f); Tlv t = parse_tlv(e.data(), e.size()); b.assign(e.begin() + (long)t.hl, e.end()); break; }
    case 23: if (r.chance(1, 2)) { str(civil_text((long long)r.below(4000000000ull), true).substr(2)); break; } // fallthrough
    case 24:
    {
        std::string s = civil_text(r.chance(1, 2) ? (long long)r.below(4000000000ull) : -62167219200ll + (long long)r.below(315569520000ull), r.chance(3, 4));
        if (r.chance(1, 6)) s = s.substr(0, 14) + "+0130";
        if (r.chance(1, 6)) s[r.below(s.size())] = (char)('0' + r.below(10));
        if (r.chance(1, 12)) s.insert(s.size() > 14 ? 14 : s.size(), ".5");
        str(s);
        break;
    }
    default:
    {
        size_t n = r.below(r.chance(1, 6) ? 300 : 20);
        if (r.chance(3, 4)) while (n--) b.push_back((uint8_t)(0x20 + r.below(95)));
        else rnd(n);
        break;
    }
    }
    return b;
}
void packet(Bytes& out, Rng& r, int depth)
{
    TagN t{(int)r.below(4), (int64_t)(r.chance(3, 4) ? r.below(31) : r.chance(1, 2) ? r.below(300) : r.chance(1, 2) ? (1ll << 31) + (int64_t)r.below(40) : (int64_t)(r.next() >> (1 + r.below(60))))};
    if (r.chance(1, 2)) t.cls = 0;
    if (t.cls == 0 && r.chance(1, 20)) t.num = (1ll << 32) + (int64_t)r.below(40); // not another tag because of its low bits
    bool  c = depth > 0 && r.chance(2, 3);
    Bytes b;
    if (c)
    {
        if (t.cls == 0 && r.chance(3, 4)) t.num = 16 + (int64_t)r.below(2);
        for (size_t n = r.below(r.chance(1, 8) ? 20 : 4); n--;) packet(b, r, depth - 1);
        if (r.chance(1, 20)) for (size_t n = 1 + r.below(6); n--;) b.push_back((uint8_t)r.below(256));
    }
    else b = content_of(r, t.cls == 0 ? t.num : (int64_t)r.below(31));
    put_tlv(out, t, c, b, r.chance(1, 10) ? (int)r.below(5) : -1);
}
const int OPEN_ERRORS[]  = {EACCES, EMFILE, ENFILE, ENOENT, EIO, ENOMEM, ELOOP, EINTR, EPERM};
const int READ_ERRORS[]  = {EIO, EISDIR, ENOMEM, EBADF, ESTALE};
const int WRITE_ERRORS[] = {ENOSPC, EIO, EDQUOT, EFBIG, EPIPE, EBADF, EAGAIN};

struct World
{
    Ctx&        c;
    std::string root;
    Bytes       file;
    explicit World(Ctx& x) : c(x), root(sys_scratch()) {}
    void show(const Op& o)
    {
        Expect      x;
        bool        whole = expected(file, x);
        int         how   = (int)((uint64_t)o.arg(2) % 8); // what is there instead of the file
        std::string name = root + "/file.ber", out = root + "/out";
        if (how == 1) { unlink(name.c_str()); mkdir(name.c_str(), 0700); }
        else if (how == 2) unlink(name.c_str());
        else spit(name, std::string(file.begin(), file.end()));
        SysRun s;
        s.scratch = root;
        s.out     = out;
        s.layout  = (uint64_t)o.arg(0);
        s.env     = {"TZ=UTC"};
        for (uint64_t i = s.layout % 7; i--;) s.env.push_back("PADDING" + std::to_string(i) + "=" + std::string(s.layout % 999, 'x'));
        if (o.arg(1) > 0) s.capacity = o.arg(1) - 1;
        for (size_t i = 3; i + 4 < o.a.size(); i += 5)
        {
            SysFault f;
            f.cls  = (int)((uint64_t)o.a[i] % SC_CLASSES);
            f.nth  = (uint64_t)o.a[i + 1];
            if (f.nth == 0) continue;
            f.last = f.nth + (uint64_t)o.a[i + 2];
            f.kind = (int)((uint64_t)o.a[i + 3] % SK_KILL);
            f.arg  = o.a[i + 4];
            size_t k = (size_t)(uint64_t)f.arg;
            if (f.kind == SK_ERROR) f.arg = f.cls == SC_OPEN_IN ? OPEN_ERRORS[k % (sizeof OPEN_ERRORS / sizeof(int))] : f.cls == SC_WRITE ? WRITE_ERRORS[k % (sizeof WRITE_ERRORS / sizeof(int))] : READ_ERRORS[k % (sizeof READ_ERRORS / sizeof(int))];
            if (f.kind == SK_INTR && f.last - f.nth > 1000) f.last = f.nth + 1000;
            s.faults.push_back(f);
        }
        uint64_t limit = 200000 + 4000 * (uint64_t)file.size();
        s.main = [name, limit, how]() {
            const char* argv[] = {"fast_ber_view", name.c_str(), "more", nullptr};
            sim_step_limit(limit);
            int r = sim_view_main(how == 3 ? 1 : how == 4 ? 3 : 2, argv);
            sim_step_limit(0);
            return r;
        };
        SysResult   q    = sys_run(s, c);
        std::string text = slurp(out), what = q.hard ? "when " + q.hard_what : how == 1 ? "given a directory" : how == 2 ? "given no file" : how == 3 || how == 4 ? "wrongly called" : whole ? "given a complete packet" : "given an incomplete packet";
        c.now += 1000;
        c.ev("show status %d hard %d whole %d out %zu %016llx", q.status == 0 ? 0 : 1, (int)q.hard, (int)whole, q.hard || q.status ? 0 : text.size(), q.hard || q.status ? 0 : (unsigned long long)hash_str(text));
        c.state(hash64(hash64(file.size(), whole), hash64(hash_str(q.hard_what), q.status ? 0 : text.size())));
        if (how == 1 || how == 2) { c.tick("fault_bad_input"); if (how == 1) rmdir(name.c_str()); }
        if (q.hung) c.fail("hang", "the viewer does not end");
        if (q.crashed)
        {
            if (c.verbose) fprintf(stderr, "%s\n", q.err.substr(0, 4000).c_str());
            std::string why = "status " + std::to_string(q.status);
            for (std::string k : {"ERROR: AddressSanitizer: ", "runtime error: ", "SIM-FATAL "})
            {
                size_t at = q.err.find(k);
                if (at != std::string::npos) { at += k.size(); why = q.err.substr(at, q.err.find_first_of(" \n(", at) - at); break; }
            }
            c.fail("crash", "the viewer crashes: %s", why.c_str());
        }
        // the C library does not repeat an interrupted write to standard output: then it is reported
        for (auto& f : s.faults) if (f.kind == SK_INTR && f.cls != SC_READ && q.hits[SK_INTR] && q.status != 0) { c.tick("interruption_reported"); return; }
        bool must_fail = q.hard || !whole || (how >= 1 && how <= 4);
        if (must_fail && q.status == 0) c.fail("false_success", "the viewer exits with status 0 %s", what.c_str());
        if (must_fail) { c.tick("failure_reported"); return; }
        if (q.status != 0) c.fail("status", "the viewer exits with status %d for a complete packet", q.status);
        size_t at = 0;
        if (!x.match(text, &at))
        {
            if (c.verbose) fprintf(stderr, "file %s\ngot %s\n", hex(file).substr(0, 2000).c_str(), text.substr(0, 4000).c_str());
            std::string near;
            for (char ch : text.substr(at > 30 ? at - 30 : 0, 90)) near += ch >= ' ' && ch <= '~' ? ch : '.';
            c.fail("output", "the viewer prints something else, at %zu of %zu: %s", at, text.size(), near.c_str());
        }
        c.tick("printed");
    }
    void step(const Op& o)
    {
        Rng r((uint64_t)o.arg(0));
        if (o.name == "packet") { if (file.size() < 200000) packet(file, r, (int)((uint64_t)o.arg(1) % 8)); }
        else if (o.name == "clear") file.clear();
        else if (o.name == "deep")
        {
            std::vector<Bytes> h;
            size_t             n = file.size();
            for (uint64_t i = (uint64_t)o.arg(1) % 60000; i--;)
            {
                Bytes b{(uint8_t)(r.chance(1, 2) ? 0x30 : 0xa0 + r.below(30))};
                if (n < 128) b.push_back((uint8_t)n);
                else { b.push_back(0x83); b.push_back((uint8_t)(n >> 16)); b.push_back((uint8_t)(n >> 8)); b.push_back((uint8_t)n); }
                n += b.size();
                h.push_back(b);
            }
            Bytes f;
            for (size_t i = h.size(); i--;) f.insert(f.end(), h[i].begin(), h[i].end());
            f.insert(f.end(), file.begin(), file.end());
            file = f;
            c.tick("deeply_nested");
        }
        else if (o.name == "torn") { if (!file.empty()) { file.resize((uint64_t)o.arg(0) % file.size()); c.tick("fault_torn"); } }
        else if (o.name == "flip") { if (!file.empty()) { file[(uint64_t)o.arg(0) % file.size()] ^= (uint8_t)(1 + (uint64_t)o.arg(1) % 255); c.tick("fault_flip"); } }
        else if (o.name == "zero") { if (!file.empty()) { size_t a = (uint64_t)o.arg(0) % file.size(), e = std::min<size_t>(file.size(), a + 1 + (uint64_t)o.arg(1) % 512); std::fill(file.begin() + (long)a, file.begin() + (long)e, 0); c.tick("fault_zeroed"); } }
        else if (o.name == "junk") { for (uint64_t n = 1 + (uint64_t)o.arg(1) % 300; n--;) file.push_back((uint8_t)r.below(256)); c.tick("fault_junk"); }
        else if (o.name == "show") show(o);
    }
};
} // namespace

void world_init() {}
int  world_probe(const std::string&) { return 2; }
Plan world_gen(uint64_t seed, const std::string&)
{
    Rng  r(seed);
    Plan p;
    for (long n = r.range(4, 14); n--;)
    {
        if (p.empty() || r.chance(1, 4))
        {
            p.push_back(Op{"clear", {}});
            if (r.chance(1, 12)) p.push_back(Op{"junk", {(long long)r.below(1000000), (long long)r.below(300)}});
            else for (long k = r.range(1, r.chance(1, 20) ? 60 : 2); k--;) p.push_back(Op{"packet", {(long long)r.below(1000000000), (long long)r.below(7)}});
            if (r.chance(1, 100)) p.push_back(Op{"deep", {(long long)r.below(1000000), (long long)(r.chance(1, 2) ? r.below(300) : r.below(60000))}});
        }
        else switch (r.below(10))
        {
        case 0: p.push_back(Op{"torn", {(long long)r.below(1000000)}}); break;
        case 1: p.push_back(Op{"flip", {(long long)(r.chance(1, 2) ? r.below(12) : r.below(1000000)), (long long)r.below(255)}}); break;
        case 2: if (r.chance(1, 3)) p.push_back(Op{"zero", {(long long)r.below(1000000), (long long)r.below(512)}}); break;
        case 3: if (r.chance(1, 3)) p.push_back(Op{"junk", {(long long)r.below(1000000), (long long)r.below(300)}}); break;
        default: break;
        }
        Op o{"show", {r.chance(1, 2) ? 0 : (long long)r.below(1000000), 0, 0}};
        if (r.chance(1, 10)) o.a[2] = (long long)r.below(5);
        if (r.chance(1, 10)) o.a[1] = 1 + (long long)r.below(r.chance(1, 2) ? 300 : 10000);
        auto fault = [&](int cls, long long nth, long long count, int kind, long long arg) { o.a.insert(o.a.end(), {cls, nth, count, kind, arg}); };
        auto nth   = [&]() { return (long long)(1 + r.below(r.chance(1, 4) ? 20 : 3)); };
        if (r.chance(1, 4)) { static const int cls[] = {SC_OPEN_IN, SC_READ, SC_CLOSE_IN, SC_WRITE}; fault(cls[r.below(4)], nth(), r.chance(1, 2) ? 0 : 1000000, SK_ERROR, (long long)r.below(20)); }
        if (r.chance(1, 3)) fault(r.chance(1, 2) ? SC_READ : SC_WRITE, nth(), r.chance(1, 2) ? (long long)r.below(5) : 1000000, SK_SHORT, 1 + (long long)(r.chance(1, 4) ? r.below(8) : r.below(5000)));
        if (r.chance(1, 4)) fault(r.chance(1, 2) ? SC_READ : SC_WRITE, nth(), (long long)r.below(3), SK_INTR, 0);
        p.push_back(o);
    }
    return p;
}
void world_run(const Plan& p, const std::string&, Ctx& c)
{
    World w(c);
    for (auto& o : p) { w.step(o); c.mix(hash_str(o.name)); for (auto x : o.a) c.mix((uint64_t)x); }
}
