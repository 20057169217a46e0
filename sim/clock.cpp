// The clock world (C13): hosts with clocks and time zones of their own, both of which change at any time, exchange times.
// The real code: GeneralizedTime and its aliases, with absl's time library below it. The clock and the time zone every
// host sees are the simulator's.
#include "fast_ber/ber_types/All.hpp"

#include "core.hpp"
#include "reg.hpp"

#include "absl/time/clock.h"

#include <cerrno>
#include <memory>
#include <sstream>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

using namespace fast_ber;

// ------------------------------------------------------------------------------------------------------------- clocks
static int64_t g_now_ns = 0; // the clock of the host which runs
static bool    g_on     = false;
static uint64_t g_asked = 0;
extern "C" int clock_gettime(clockid_t id, struct timespec* t)
{
    if (!g_on) return (int)syscall(SYS_clock_gettime, id, t);
    g_asked++;
    int64_t s  = g_now_ns / 1000000000, n = g_now_ns % 1000000000;
    t->tv_sec  = n < 0 ? s - 1 : s;
    t->tv_nsec = n < 0 ? n + 1000000000 : n;
    return 0;
}
extern "C" time_t time(time_t* t)
{
    timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    if (t) *t = s.tv_sec;
    return s.tv_sec;
}
extern "C" int gettimeofday(struct timeval* t, void*)
{
    timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    t->tv_sec  = s.tv_sec;
    t->tv_usec = s.tv_nsec / 1000;
    return 0;
}
// absl extrapolates the clock by the processor's cycle counter
extern "C" int64_t __wrap__ZN4absl7debian319GetCurrentTimeNanosEv()
{
    timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    return (int64_t)s.tv_sec * 1000000000 + s.tv_nsec;
}
extern "C++" absl::Time wrapped_now() { return absl::FromUnixNanos(__wrap__ZN4absl7debian319GetCurrentTimeNanosEv()); }
extern "C" absl::Time __wrap__ZN4absl7debian33NowEv() { return wrapped_now(); }

namespace
{
const char* const ZONES[] = {"UTC", "America/New_York", "Europe/London", "Asia/Kathmandu", "Australia/Lord_Howe", "Pacific/Apia", "America/St_Johns",
                             "Africa/Monrovia", "Asia/Tehran", "Antarctica/Troll", "Pacific/Kiritimati", "Etc/GMT+12", "EST5EDT,M3.2.0,M11.1.0", "<+1345>-13:45", "Nowhere/Bad", ":UTC", "", "right/Europe/Paris", nullptr};
const size_t      N_ZONES = sizeof ZONES / sizeof *ZONES;
const size_t      HOSTS = 4, POOL = 4, TYPES = 6;
const int64_t     MIN = -62167219200, MAX = 253402300799; // 0000-01-01T00:00:00 to 9999-12-31T23:59:59

struct Host
{
    size_t  zone = 0;
    int64_t clock = 0; // ns
};
struct Model
{
    std::string text;
};
enum Form { F_UTC, F_OFFSET, F_LOCAL };
struct Reading
{
    bool    clear = false; // YYYYMMDDhhmmss, with nothing, Z, or an offset: this is what it says
    bool    wrong = false; // this is not a time
    Form    form  = F_LOCAL;
    int64_t fields = 0; // as if they were UTC
    int     offset = 0; // minutes
    bool    leap   = false; // second 60
};
bool leap_year(int64_t y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
int64_t days_before(int64_t y) // days from 0000-01-01
{
    int64_t n = y - 1;
    return y == 0 ? 0 : 366 + n * 365 + n / 4 - n / 100 + n / 400;
}
// An independent reader
Reading read_text(const std::string& s)
{
    Reading r;
    size_t  n = s.size();
    r.form    = n && s[n - 1] == 'Z' ? F_UTC : n >= 5 && (s[n - 5] == '+' || s[n - 5] == '-') ? F_OFFSET : F_LOCAL;
    size_t digits = n - (r.form == F_UTC ? 1 : r.form == F_OFFSET ? 5 : 0);
    for (size_t i = 0; i < digits; i++)
        if (s[i] < '0' || s[i] > '9') { r.wrong = !(i >= 10 && (s[i] == '.' || s[i] == ',')); return r; }
    if (r.form == F_OFFSET)
        for (size_t i = digits + 1; i < n; i++) if (s[i] < '0' || s[i] > '9') { r.wrong = true; return r; }
    if (digits != 14) { r.wrong = digits != 10 && digits != 12; return r; } // hours or minutes only: valid, but not supported
    auto num = [&](size_t at, size_t len) { int64_t x = 0; for (size_t i = at; i < at + len; i++) x = x * 10 + (s[i] - '0'); return x; };
    int64_t y = num(0, 4), mo = num(4, 2), d = num(6, 2), h = num(8, 2), mi = num(10, 2), se = num(12, 2);
    static const int md[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    if (mo < 1 || mo > 12 || d < 1 || d > md[mo - 1] + (mo == 2 && leap_year(y)) || h > 23 || mi > 59 || se > 60) { r.wrong = true; return r; }
    r.leap      = se == 60;
    int64_t day = days_before(y) + d - 1;
    for (int64_t m = 1; m < mo; m++) day += md[m - 1] + (m == 2 && leap_year(y));
    r.fields = MIN + day * 86400 + h * 3600 + mi * 60 + se;
    if (r.form == F_OFFSET)
    {
        r.offset = (int)(num(digits + 1, 2) * 60 + num(digits + 3, 2));
        if (num(digits + 1, 2) > 24 || num(digits + 3, 2) > 59) return r; // no such offset: reported or not
        if (s[digits] == '-') r.offset = -r.offset;
    }
    r.clear = true;
    return r;
}

// A time of one of several types
struct Time
{
    virtual ~Time() {}
    virtual void set(absl::Time)                 = 0;
    virtual void set(absl::CivilSecond)          = 0;
    virtual void set(absl::Time, int)            = 0;
    virtual void construct(absl::Time)           = 0;
    virtual absl::Time  time() const             = 0;
    virtual std::string string() const           = 0;
    virtual int         format() const           = 0;
    virtual Bytes       encode(bool* ok) const   = 0;
    virtual bool decode(const Bytes&, int how)   = 0;
    virtual std::string print() const            = 0;
    virtual bool equal(const Time&) const        = 0;
    virtual void copy(const Time&)               = 0;
    virtual Bytes header() const                 = 0;
    size_t type = 0;
};
template <class T> struct TimeOf : Time
{
    T t;
    void set(absl::Time x) override { t.set_time(x); }
    void set(absl::CivilSecond x) override { t.set_time(x); }
    void set(absl::Time x, int o) override { t.set_time(x, o); }
    void construct(absl::Time x) override { t = T(x); }
    absl::Time  time() const override { return t.time(); }
    std::string string() const override { return t.string(); }
    int         format() const override { return t.format() == T::TimeFormat::universal ? F_UTC : t.format() == T::TimeFormat::local ? F_LOCAL : F_OFFSET; }
    Bytes encode(bool* ok) const override
    {
        Bytes b(t.encoded_length());
        auto  r = t.encode(absl::Span<uint8_t>(b.data(), b.size()));
        *ok     = r.success && r.length == b.size();
        return b;
    }
    bool decode(const Bytes& b, int how) override
    {
        std::unique_ptr<uint8_t[]> p(new uint8_t[b.size()]);
        std::copy(b.begin(), b.end(), p.get());
        absl::Span<const uint8_t> s(p.get(), b.size());
        switch (how % 3)
        {
        case 0: return fast_ber::decode(s, t).success;
        case 1: return t.decode(BerView(s)).success;
        default: { BerViewIterator i(s); return fast_ber::decode(i, t).success; }
        }
    }
    std::string print() const override { std::ostringstream o; o << t; return o.str(); }
    bool equal(const Time& o) const override { bool e = t == dynamic_cast<const TimeOf&>(o).t, n = t != dynamic_cast<const TimeOf&>(o).t; return e == n ? throw 1 : e; }
    void copy(const Time& o) override { T c(dynamic_cast<const TimeOf&>(o).t); t = std::move(c); }
    Bytes header() const override { bool ok; Bytes b = encode(&ok); b.resize(b.size() - t.string().size()); return b; }
};
Time* make(size_t type)
{
    Time* t;
    switch (type)
    {
    case 0: t = new TimeOf<GeneralizedTime<>>(); break;
    case 1: t = new TimeOf<UTCTime<>>(); break;
    case 2: t = new TimeOf<GeneralizedTime<Id<Class::context_specific, 3>>>(); break;
    case 3: t = new TimeOf<GeneralizedTime<DoubleId<Id<Class::application, 300>, Id<Class::universal, 24>>>>(); break;
    case 4: t = new TimeOf<Date<Id<Class::context_specific, 1000>>>(); break;
    default: t = new TimeOf<DateTime<>>(); break;
    }
    t->type = type;
    return t;
}
struct World
{
    Ctx&                  c;
    Host                  host[HOSTS];
    std::unique_ptr<Time> obj[HOSTS][POOL];
    Model                 mod[HOSTS][POOL];
    explicit World(Ctx& x) : c(x)
    {
        for (size_t h = 0; h < HOSTS; h++)
            for (size_t i = 0; i < POOL; i++) { obj[h][i].reset(make(0)); mod[h][i].text = "19700101000000Z"; }
    }
    // From here on what runs sees this host
    struct As
    {
        As(World& w, size_t h)
        {
            Host& x = w.host[h];
            if (ZONES[x.zone]) setenv("TZ", ZONES[x.zone], 1); else unsetenv("TZ");
            tzset();
            g_now_ns = x.clock;
            g_on     = true;
        }
        ~As() { g_on = false; unsetenv("TZ"); tzset(); }
    };
    std::string where(size_t h) { return std::string(" (time zone ") + (ZONES[host[h].zone] ? ZONES[host[h].zone] : "none") + ", clock " + civil_text(host[h].clock / 1000000000, true) + ")"; }
    void check(size_t h, size_t i, const char* doing)
    {
        Time&       t = *obj[h][i];
        std::string m = mod[h][i].text, got;
        Reading     r = read_text(m);
        bool        threw = false, other = false;
        absl::Time  at;
        {
            As a(*this, h);
            got = t.string();
            try { at = t.time(); } catch (const std::runtime_error&) { threw = true; } catch (...) { other = true; }
        }
        if (got != m) c.fail("content", "%s: \"%s\" instead of \"%s\"%s", doing, got.c_str(), m.c_str(), where(h).c_str());
        if (other) c.fail("exception", "%s: time() of \"%s\" threw something else", doing, m.c_str());
        int f;
        { As a(*this, h); f = t.format(); }
        if (f != r.form) c.fail("format", "%s: format() of \"%s\" is %d", doing, m.c_str(), f);
        if (threw)
        {
            c.tick("read_reported");
            if (r.clear && !r.leap) c.fail("rejected", "%s: \"%s\" is not read%s", doing, m.c_str(), where(h).c_str());
            return;
        }
        c.tick("read_time");
        int64_t s = absl::ToUnixSeconds(at);
        if (absl::FromUnixSeconds(s) != at) c.fail("time", "%s: \"%s\" is read with a fraction", doing, m.c_str());
        if (r.wrong) c.fail("accepted", "%s: \"%s\" is read as %s%s", doing, m.c_str(), civil_text(s, true).c_str(), where(h).c_str());
        if (!r.clear) return;
        // known finding: the offset is not taken into account
        bool good = s == r.fields || (r.form == F_OFFSET && s == r.fields - r.offset * 60) || (r.leap && s == r.fields - 1);
        if (!good) c.fail("time", "%s: \"%s\" is read as %s%s", doing, m.c_str(), civil_text(s, true).c_str(), where(h).c_str());
        std::string text;
        { As a(*this, h); text = t.print(); }
        absl::Time  q;
        std::string err;
        if (!absl::ParseTime(absl::RFC3339_full, text, &q, &err)) c.tick("printed_otherwise"); // beyond what the format can express, as are offsets with seconds
        else if (q - at <= -absl::Minutes(1) || q - at >= absl::Minutes(1)) c.fail("print", "%s: \"%s\" is printed as %s%s", doing, m.c_str(), text.c_str(), where(h).c_str());
        bool ok;
        Bytes b;
        { As a(*this, h); b = t.encode(&ok); }
        if (!ok || b.size() < m.size() || std::string(b.end() - (long)m.size(), b.end()) != m) c.fail("encode", "%s: \"%s\" is encoded as %s%s", doing, m.c_str(), hex(b).c_str(), where(h).c_str());
        c.state(hash64(hash64((uint64_t)(s / 86400 / 30), (uint64_t)r.form), hash64(host[h].zone, hash_str(doing))));
    }
    std::string offset_text(int o)
    {
        char b[40];
        snprintf(b, sizeof b, "%c%02d%02d", o >= 0 ? '+' : '-', std::abs(o) / 60, std::abs(o) % 60);
        return b;
    }
    void step(const Op& o)
    {
        size_t  h = (size_t)((uint64_t)o.arg(0) % HOSTS), i = (size_t)((uint64_t)o.arg(1) % POOL);
        Host&   x = host[h];
        const char* doing = o.name.c_str();
        c.now += 1000;
        if (o.name == "zone") { x.zone = (size_t)((uint64_t)o.arg(1) % N_ZONES); c.tick("fault_zone_changed"); for (size_t k = 0; k < POOL; k++) check(h, k, "after a change of the time zone"); return; }
        if (o.name == "clock") { x.clock = o.arg(1); c.tick("fault_clock_jump"); for (size_t k = 0; k < POOL; k++) check(h, k, "after a jump of the clock"); return; }
        if (o.name == "skew") { x.clock += o.arg(1); c.tick("skew_clock"); return; }
        for (auto& y : host) y.clock += 1000000;
        Time*   t = obj[h][i].get();
        Model&  m = mod[h][i];
        int64_t sec = o.arg(2), ns = o.arg(3);
        if (sec < MIN) sec = MIN;
        if (sec > MAX) sec = MAX;
        if (o.name == "type") { obj[h][i].reset(make((size_t)((uint64_t)o.arg(2) % TYPES))); m.text = "19700101000000Z"; }
        else if (o.name == "set")
        {
            absl::Time at = absl::FromUnixSeconds(sec) + absl::Nanoseconds(ns);
            { As a(*this, h); if (o.arg(4) & 1) t->construct(at); else t->set(at); }
            m.text = civil_text(sec, true);
        }
        else if (o.name == "civil")
        {
            absl::CivilSecond cs = absl::CivilSecond(1970, 1, 1) + sec;
            { As a(*this, h); t->set(cs); }
            m.text = civil_text(sec, false);
        }
        else if (o.name == "offset")
        {
            int off = (int)(ns % 1000);
            { As a(*this, h); t->set(absl::FromUnixSeconds(sec), off); }
            // known finding: the time is not converted to the time zone it is given with
            m.text = civil_text(sec, false) + offset_text(off);
            std::string got, right = civil_text(sec + off * 60, false) + offset_text(off);
            { As a(*this, h); got = t->string(); }
            if (got == right) m.text = right;
        }
        else if (o.name == "now")
        {
            { As a(*this, h); t->set(absl::Now()); }
            int64_t s = x.clock / 1000000000;
            if (x.clock % 1000000000 < 0) s--;
            m.text = civil_text(s, true);
        }
        else if (o.name == "send")
        {
            size_t g = (size_t)((uint64_t)o.arg(2) % HOSTS), j = (size_t)((uint64_t)o.arg(3) % POOL);
            bool   ok;
            Bytes  b;
            { As a(*this, h); b = t->encode(&ok); }
            if (!ok) c.fail("encode", "a time is not encoded");
            if (obj[g][j]->type != t->type) obj[g][j].reset(make(t->type));
            std::string text = m.text;
            { As a(*this, g); ok = obj[g][j]->decode(b, (int)o.arg(4)); }
            if (!ok) c.fail("decode", "\"%s\" is not received", text.c_str());
            mod[g][j].text = text;
            c.tick("sent");
            if (x.zone != host[g].zone) c.tick("skew_zones_differ");
            c.ev("%s from %zu to %zu", text.c_str(), h, g);
            check(g, j, "received");
            if (h != g || i != j)
            {
                int e = -1;
                { As a(*this, g); try { e = obj[g][j]->equal(*t); } catch (int) { } }
                if (e != 1) c.fail("equal", "\"%s\" as received is not equal to what was sent", text.c_str());
            }
            return;
        }
        else if (o.name == "copy")
        {
            size_t j = (size_t)((uint64_t)o.arg(2) % POOL);
            if (obj[h][j]->type != t->type) obj[h][j].reset(make(t->type));
            { As a(*this, h); obj[h][j]->copy(*t); }
            mod[h][j].text = m.text;
            i = j;
        }
        else if (o.name == "compare")
        {
            size_t j = (size_t)((uint64_t)o.arg(2) % POOL);
            if (obj[h][j]->type != t->type) return;
            int e = -1;
            { As a(*this, h); try { e = t->equal(*obj[h][j]); } catch (int) {} }
            Reading p = read_text(m.text), q = read_text(mod[h][j].text);
            bool    same = m.text == mod[h][j].text, could = same;
            if (p.clear && q.clear && !p.leap && !q.leap)
            {
                int64_t po = p.offset * 60, qo = q.offset * 60;
                bool    plain = p.fields == q.fields, right = p.fields - po == q.fields - qo;
                same  = same || (plain && right);
                could = could || plain || right;
            }
            else if (p.leap || q.leap || !(p.clear || p.wrong) || !(q.clear || q.wrong)) could = true;
            if (e < 0 || (e && !could) || (!e && same)) c.fail("equal", "\"%s\" == \"%s\" is %d%s", m.text.c_str(), mod[h][j].text.c_str(), e, where(h).c_str());
            return;
        }
        else if (o.name == "text") // a peer which writes times by itself, in its own way, or badly
        {
            Rng         r((uint64_t)o.arg(4));
            std::string s = civil_text(sec, false);
            switch (r.below(4)) { case 0: s += "Z"; break; case 1: s += offset_text((int)r.below(1500) - 750); break; case 2: break; default: s += std::string(1, '.') + std::string(r.below(4), '5') + "Z"; }
            bool damaged = false;
            for (uint64_t n = r.chance(2, 3) ? r.below(4) : 0; n--;)
            {
                static const char cs[] = "0123456789 Z+-.,:TtzQ\t-+";
                damaged = true;
                size_t at = r.below(s.size() + 1);
                if (s.empty()) break;
                switch (r.below(4))
                {
                case 0: if (at < s.size()) s.erase(at, 1); break;
                case 1: s.insert(at, 1, cs[r.below(sizeof cs - 1)]); break;
                case 2: if (at < s.size()) s[at] = cs[r.below(sizeof cs - 1)]; break;
                default: if (at < s.size()) s[at] = (char)(s[at] ^ (1 << r.below(8)));
                }
            }
            if (r.chance(1, 60)) { static const char* const words[] = {"infinite-future", "infinite-past", "20240101 120000Z", "2024-01-01T12:00Z", "-0240101120000Z", "+0240101120000Z", "99991231235960Z", "20240229240000Z"}; s = words[r.below(8)]; damaged = true; }
            c.tick(damaged ? "fault_damaged_text" : "alt_foreign_text");
            Bytes b = t->header();
            // the header with the right lengths
            Bytes id;
            for (size_t k = b.size(); k--;) if (k + 1 == b.size()) { id.assign(b.begin(), b.begin() + (long)k); }
            if (t->type == 3)
            {
                Bytes inner, outer;
                put_tlv(inner, TagN{0, 24}, false, Bytes(s.begin(), s.end()));
                put_tlv(outer, TagN{1, 300}, true, inner);
                b = outer;
            }
            else { b = id; b.push_back((uint8_t)s.size()); b.insert(b.end(), s.begin(), s.end()); }
            bool ok;
            { As a(*this, h); ok = t->decode(b, (int)o.arg(3)); }
            bool must = read_text(s).clear && s.size() <= 19;
            if (!ok && must) c.fail("decode", "\"%s\" is not received", s.c_str());
            c.tick(ok ? "text_received" : "text_rejected");
            if (ok) m.text = s;
            else { obj[h][i].reset(make(t->type)); m.text = "19700101000000Z"; }
            c.ev("text %s: %d", hex((const uint8_t*)s.data(), s.size()).c_str(), (int)ok);
        }
        else return;
        check(h, i, doing);
    }
};
} // namespace

void world_init() {}
int  world_probe(const std::string& name)
{
    if (name == "offset_ignored")
    {
        TimeOf<GeneralizedTime<>> t;
        std::string               s = "20240101120000+0200";
        Bytes                     b{0x18, (uint8_t)s.size()};
        b.insert(b.end(), s.begin(), s.end());
        return t.decode(b, 0) && absl::ToUnixSeconds(t.time()) == 1704110400; // 12:00 UTC rather than 10:00 UTC
    }
    if (name == "utc_time_form")
    {
        TimeOf<UTCTime<>> t;
        t.set(absl::FromUnixSeconds(1704110400));
        return t.string() == "20240101120000Z"; // rather than 240101120000Z
    }
    return 2;
}
Plan world_gen(uint64_t seed, const std::string&)
{
    Rng  r(seed);
    Plan p;
    auto when = [&]() -> long long {
        if (r.chance(1, 3)) return MIN + (long long)r.below((uint64_t)(MAX - MIN + 1));
        // near places where a time zone may have a transition, or a calendar something special
        long long year = r.chance(3, 4) ? 1900 + (long long)r.below(160) : (long long)r.below(10000);
        long long day  = days_before(year) + (r.chance(1, 2) ? (long long)r.below(366) : (long long)(r.chance(1, 2) ? 59 + r.below(50) : 270 + r.below(50)));
        long long t    = MIN + day * 86400 + (long long)r.below(24) * 3600;
        switch (r.below(4)) { case 0: t += (long long)r.below(3) - 1; break; case 1: t += (long long)r.below(3600); break; case 2: t += 1800; break; default: break; }
        return t;
    };
    for (long long h = 0; h < (long long)HOSTS; h++)
    {
        if (r.chance(9, 10)) p.push_back(Op{"zone", {h, (long long)r.below(N_ZONES)}});
        if (r.chance(1, 2)) p.push_back(Op{"clock", {h, (MIN / 30 + (long long)r.below(4000000000ull)) * 1000000000 + (long long)r.below(1000000000)}});
    }
    for (long n = r.range(5, 60); n--;)
    {
        static const char* const names[] = {"set", "set", "set", "civil", "civil", "offset", "send", "send", "send", "send", "copy", "compare", "compare", "text", "text", "text", "now", "type", "zone", "zone", "clock", "skew"};
        std::string name = names[r.below(sizeof names / sizeof *names)];
        long long   h = (long long)r.below(HOSTS), i = (long long)r.below(POOL);
        if (name == "zone") p.push_back(Op{name, {h, (long long)r.below(N_ZONES)}});
        else if (name == "clock") p.push_back(Op{name, {h, std::max(-9000000000ll, std::min(9000000000ll, when())) * 1000000000 + (long long)r.below(1000000000)}});
        else if (name == "skew") p.push_back(Op{name, {h, ((long long)r.below(20000) - 10000) * 1000000}});
        else if (name == "send") p.push_back(Op{name, {h, i, (long long)r.below(HOSTS), (long long)r.below(POOL), (long long)r.below(3)}});
        else if (name == "copy" || name == "compare") p.push_back(Op{name, {h, i, (long long)r.below(POOL)}});
        else if (name == "type") p.push_back(Op{name, {h, i, (long long)r.below(TYPES)}});
        else if (name == "offset") p.push_back(Op{name, {h, i, when(), r.chance(1, 2) ? (long long)r.below(29) * 60 - 840 : (long long)r.below(1999) - 999}});
        else p.push_back(Op{name, {h, i, when(), r.chance(1, 3) ? (long long)r.below(1000000000) : r.chance(1, 4) ? 999999999 : 0, (long long)r.below(1000000)}});
    }
    return p;
}
void world_run(const Plan& p, const std::string&, Ctx& c)
{
    World    w(c);
    uint64_t asked = g_asked;
    for (auto& o : p)
    {
        sim_step_limit(5000000);
        w.step(o);
        c.events++;
    }
    sim_step_limit(0);
    for (size_t h = 0; h < HOSTS; h++) for (size_t i = 0; i < POOL; i++) w.check(h, i, "in the end");
    if (g_asked > asked) c.tick("clock_reads", g_asked - asked);
}
