// The log world (C08): writers append packets to a log on simulated storage, which loses, tears and zeroes unsynced
// sectors when it crashes; readers follow the log while it grows and after recovery; containers store packets.
// The real code: BerView, BerViewIterator, MutableBerView, BerContainer, encode_header.
#include "fast_ber/util/BerContainer.hpp"
#include "fast_ber/util/BerView.hpp"
#include "fast_ber/util/DecodeHelpers.hpp"

#include "core.hpp"
#include "reg.hpp"

#include <memory>
#include <sstream>

using namespace fast_ber;

namespace
{
struct Pkt // what a packet is, in the model
{
    int     cls    = 0;
    int64_t tag    = 0;
    bool    constr = false;
    Bytes   header, content;
    bool    shortest = true; // identifier octets are in their shortest form
    Bytes   octets() const { Bytes b = header; b.insert(b.end(), content.begin(), content.end()); return b; }
};
Bytes make_id(int cls, int64_t tag, bool constr, int pad)
{
    Bytes b;
    if (tag <= 30 && !pad) { b.push_back((uint8_t)(cls << 6 | (constr ? 32 : 0) | (int)tag)); return b; }
    b.push_back((uint8_t)(cls << 6 | (constr ? 32 : 0) | 31));
    uint8_t tmp[12];
    int     n = 0;
    for (uint64_t x = (uint64_t)tag;;) { tmp[n++] = x & 0x7f; if (!(x >>= 7)) break; }
    while (n--) b.push_back((uint8_t)(tmp[n] | (n ? 0x80 : 0)));
    return b;
}
Bytes make_len(size_t n, int octets) // octets < 0: shortest
{
    Bytes b;
    if (octets < 0)
    {
        if (n < 128) { b.push_back((uint8_t)n); return b; }
        octets = 0;
        for (size_t x = n; x; x >>= 8) octets++;
    }
    else
    {
        int need = 0;
        for (size_t x = n; x; x >>= 8) need++;
        octets = std::max(std::max(octets, need), 1);
    }
    b.push_back((uint8_t)(0x80 | octets));
    for (int i = octets - 1; i >= 0; i--) b.push_back((uint8_t)(i >= 8 ? 0 : (uint64_t)n >> (8 * i)));
    return b;
}
int64_t pick_tag(long long a)
{
    static const int64_t edge[] = {0, 1, 16, 17, 30, 31, 32, 127, 128, 129, 16383, 16384, 2097151, 2097152, 268435455, 268435456,
                                   34359738367ll, 34359738368ll, 4398046511103ll, 4398046511104ll, 562949953421311ll, 562949953421312ll,
                                   72057594037927935ll, 72057594037927936ll, INT64_MAX - 1, INT64_MAX};
    uint64_t x = (uint64_t)a;
    if (x % 3 == 0) return edge[(x / 3) % (sizeof edge / sizeof *edge)];
    if (x % 3 == 1) return (int64_t)((x / 3) % 31);
    return (int64_t)(hash64(x, 5) >> (1 + x / 3 % 62));
}
size_t pick_len(long long a)
{
    static const size_t edge[] = {0, 1, 2, 60, 83, 84, 85, 96, 97, 98, 99, 100, 101, 126, 127, 128, 129, 254, 255, 256, 257, 300, 1000};
    uint64_t x = (uint64_t)a;
    if (x % 400 == 399) return 65534 + (x / 400) % 4;
    if (x % 2) return (x / 2) % 12;
    return edge[(x / 2) % (sizeof edge / sizeof *edge)];
}
Bytes pick_bytes(uint64_t seed, size_t n)
{
    Rng   r(seed);
    Bytes b(n);
    for (auto& c : b) c = (uint8_t)(r.chance(1, 5) ? 0 : r.next());
    return b;
}

// Octets handed to the library live in a buffer of exactly their size
struct Exact
{
    std::unique_ptr<uint8_t[]> p;
    size_t                     n;
    Exact(const uint8_t* d, size_t k) : p(new uint8_t[k ? k : 1]), n(k) { if (k) memcpy(p.get(), d, k); else p.reset(new uint8_t[0]); }
    absl::Span<const uint8_t> span() const { return {p.get(), n}; }
    absl::Span<uint8_t>       mut() { return {p.get(), n}; }
};

struct Slot
{
    BerContainer c;
    bool         valid = true; // a fresh container holds an empty packet with identifier 0
    Pkt          m;
    Slot() { m.header = {0, 0}; }
};

struct World
{
    Ctx&  c;
    Bytes log;             // what readers see: durable and cached octets
    size_t durable = 0;
    std::vector<std::pair<size_t, Pkt>> written; // offset and packet, while known to be in the log
    std::unique_ptr<Slot> slot[5];
    size_t follower = 0; // offset which the following reader has reached
    std::vector<Pkt> followed;

    explicit World(Ctx& x) : c(x) { for (auto& s : slot) s.reset(new Slot()); }

    void append(const Pkt& p)
    {
        written.push_back({log.size(), p});
        Bytes b = p.octets();
        log.insert(log.end(), b.begin(), b.end());
        c.tick("packets_written");
        c.state(hash64(hash64((uint64_t)p.header.size(), (uint64_t)p.cls), hash64(p.constr, std::min<uint64_t>(p.content.size(), 300))));
    }
    static Pkt spec(const Op& o) // cls tag constr len seed
    {
        Pkt p;
        p.cls = (int)((uint64_t)o.arg(0) % 4);
        p.tag = pick_tag(o.arg(1));
        p.constr = o.arg(2) & 1;
        p.content = pick_bytes((uint64_t)o.arg(4), pick_len(o.arg(3)));
        p.header = make_id(p.cls, p.tag, p.constr, 0);
        Bytes l = make_len(p.content.size(), -1);
        p.header.insert(p.header.end(), l.begin(), l.end());
        return p;
    }
    void bad(const char* kind, const Pkt& p, const char* what) { c.fail(kind, "%s: class %d tag %lld %s header %s content %zu", what, p.cls, (long long)p.tag, p.constr ? "constructed" : "primitive", hex(p.header).c_str(), p.content.size()); }

    void check_view(const BerView& v, const Pkt& p, const uint8_t* at, const char* what)
    {
        if (!v.is_valid()) bad("reader", p, "not found");
        if ((int)v.class_() != p.cls || v.tag() != p.tag || (v.construction() == Construction::constructed) != p.constr) bad("reader", p, "another identifier");
        if (v.identifier().class_() != v.class_() || v.identifier().tag() != v.tag()) bad("reader", p, "identifier()");
        if (v.header_length() != p.header.size()) bad("reader", p, "header_length");
        if (p.shortest && v.identifier_length() != make_id(p.cls, p.tag, p.constr, 0).size()) bad("reader", p, "identifier_length");
        if (v.content_length() != p.content.size() || v.ber_length() != p.header.size() + p.content.size()) bad("reader", p, "length");
        if (at && (v.ber_data() != at || v.content_data() != at + p.header.size())) bad("reader", p, "refers to other octets");
        const Bytes o = p.octets();
        if (v.ber() != absl::MakeConstSpan(o) || v.content() != absl::MakeConstSpan(p.content)) bad("reader", p, what);
    }
    // Oracle for any octets: the packets which are completely present
    static std::vector<Pkt> parse(const uint8_t* d, size_t n, bool& odd)
    {
        std::vector<Pkt> r;
        odd = false;
        size_t o = 0;
        while (o < n)
        {
            Tlv t = parse_tlv(d + o, n - o);
            if (t.odd && (!t.ok || t.hl > 11)) { odd = true; break; }
            if (!t.ok) break;
            Pkt p;
            p.cls = t.cls; p.tag = t.num; p.constr = t.constructed;
            p.header.assign(d + o, d + o + t.hl);
            p.content.assign(d + o + t.hl, d + o + t.hl + t.cl);
            p.shortest = !t.odd;
            r.push_back(p);
            o += t.hl + t.cl;
        }
        return r;
    }
    void read(const uint8_t* d, size_t n, int api, int depth, std::vector<Pkt>* out = nullptr)
    {
        bool             odd;
        std::vector<Pkt> want = parse(d, n, odd);
        Exact            e(d, n);
        size_t           i = 0, off = 0;
        auto             step = [&](const BerView& v) {
            if (i >= want.size()) { if (!odd) c.fail("reader", "a packet which is not there: offset %zu of %zu, %s", off, n, hex(d + off, std::min<size_t>(n - off, 40)).c_str()); return false; }
            check_view(v, want[i], e.p.get() + off, "content");
            off += want[i].header.size() + want[i].content.size();
            i++;
            return true;
        };
        sim_step_limit(2000 + 400 * (want.size() + 2) + n * 3);
        switch (api % 4)
        {
        case 0:
            for (BerViewIterator it(e.span()); it != BerViewIterator(End::end); ++it)
            {
                sim_step_limit(0);
                if (!step(*it)) return;
                sim_step_limit(2000 + n * 3);
            }
            break;
        case 1:
        {
            MutableBerViewIterator it(e.mut());
            for (; it->is_valid(); ++it) { sim_step_limit(0); if (!step(*it)) return; sim_step_limit(2000 + n * 3); }
            break;
        }
        case 2: // a container is filled from each packet, through the iterator interface
        {
            BerViewIterator it(e.span());
            for (;;)
            {
                BerContainer cont;
                bool         ok = decode(it, cont).success;
                if (!ok) { if (cont.is_valid()) c.fail("reader", "a container is valid after decoding nothing"); break; }
                sim_step_limit(0);
                if (i >= want.size()) { if (!odd) c.fail("reader", "a packet which is not there"); return; }
                check_view(cont.view(), want[i], nullptr, "container");
                off += want[i].header.size() + want[i].content.size();
                i++;
            }
            break;
        }
        default: // one view at a time
            while (off < n)
            {
                BerView v(e.span().subspan(off));
                if (!v.is_valid()) { if (v.ber_length() != 0) c.fail("reader", "length of an invalid view"); break; }
                sim_step_limit(0);
                if (!step(v)) return;
            }
        }
        sim_step_limit(0);
        if (i < want.size()) c.fail("reader", "stops at packet %zu of %zu, offset %zu: %s", i, want.size(), off, hex(d + off, std::min<size_t>(n - off, 40)).c_str());
        c.tick("packets_read", i);
        if (off < n) c.tick("reads_ending_at_a_torn_packet");
        if (depth < 6)
        {
            for (auto& p : want)
            {
                if (!p.constr) continue;
                // through the view of the packet itself
                Bytes   o = p.octets();
                Exact   x(o.data(), o.size());
                BerView v(x.span());
                bool    odd2;
                auto    kids = parse(p.content.data(), p.content.size(), odd2);
                size_t  k    = 0;
                for (auto it = v.begin(); it != v.end(); ++it, ++k)
                {
                    if (k >= kids.size()) { if (!odd2) bad("reader", p, "a nested packet which is not there"); break; }
                    check_view(*it, kids[k], nullptr, "nested content");
                }
                if (k < kids.size()) bad("reader", p, "nested packets are missing");
                c.tick("nested_packets_read", k);
                if (k) read(p.content.data(), p.content.size(), api + 1, depth + 1);
            }
        }
        if (out) *out = want;
    }
    void check_slot(size_t s)
    {
        Slot& x = *slot[s];
        if (x.c.is_valid() != x.valid) c.fail("container", "slot %zu: valid=%d, should be %d", s, x.c.is_valid(), x.valid);
        if (!x.valid) { if (x.c.ber_length() != 0 || !x.c.ber().empty()) c.fail("container", "an invalid container has a length"); return; }
        check_view(x.c.view(), x.m, nullptr, "container");
        if (x.c.class_() != x.c.view().class_() || x.c.tag() != x.m.tag || (x.c.construction() == Construction::constructed) != x.m.constr ||
            x.c.header_length() != x.m.header.size() || x.c.content_length() != x.m.content.size() || x.c.ber_length() != x.m.octets().size())
            bad("container", x.m, "accessors disagree with the view");
        Bytes o = x.m.octets();
        if (x.c.ber() != absl::MakeConstSpan(o) || x.c.content() != absl::MakeConstSpan(x.m.content)) bad("container", x.m, "octets changed");
        const BerContainer& k = x.c;
        if (k.content_data() != k.ber_data() + x.m.header.size()) bad("container", x.m, "content_data");
        // and write back
        for (size_t cap : {o.size(), o.size() + 3, o.size() - 1})
        {
            Exact        b(pick_bytes(cap, cap).data(), cap);
            Bytes        before(b.p.get(), b.p.get() + cap);
            EncodeResult r = x.c.encode(b.mut());
            if (r.success != (cap >= o.size())) bad("container", x.m, "encode reports the wrong outcome");
            if (r.success && (r.length != o.size() || memcmp(b.p.get(), o.data(), o.size()))) bad("container", x.m, "encode writes other octets");
            if (memcmp(b.p.get() + (r.success ? o.size() : 0), before.data() + (r.success ? o.size() : 0), cap - (r.success ? o.size() : 0)) != 0 && r.success) bad("container", x.m, "encode writes behind the packet");
        }
    }
    void run(const Op& o)
    {
        size_t a = (size_t)((uint64_t)o.arg(0) % 5), b = (size_t)((uint64_t)o.arg(1) % 5);
        if (o.name == "w_lib") // through a container
        {
            Pkt          p = spec(o);
            BerContainer x;
            Exact        content(p.content.data(), p.content.size());
            if (o.arg(5) & 1) x = BerContainer(p.constr ? Construction::constructed : Construction::primitive, (Class)p.cls, p.tag, content.span());
            else x.assign_content(p.constr ? Construction::constructed : Construction::primitive, (Class)p.cls, p.tag, content.span());
            check_view(x.view(), p, nullptr, "container");
            Bytes        want = p.octets();
            Exact        buf(want.data(), want.size());
            memset(buf.p.get(), 0xEE, want.size());
            EncodeResult r = x.encode(buf.mut());
            if (!r.success || r.length != want.size() || memcmp(buf.p.get(), want.data(), want.size())) bad("writer", p, "encoded otherwise");
            append(p);
        }
        else if (o.name == "w_hdr") // header and content separately, after attempts into too small buffers
        {
            Pkt p = spec(o);
            for (size_t cap = 0; cap <= p.header.size(); cap++)
            {
                Bytes  g = pick_bytes(cap + 9, cap);
                Exact  buf(g.data(), cap);
                size_t n = encode_header(buf.mut(), p.constr ? Construction::constructed : Construction::primitive, (Class)p.cls, (Tag)p.tag, p.content.size());
                if (cap < p.header.size()) { c.tick("fault_header_buffer_too_small"); if (n != 0) bad("writer", p, "a header is reported which does not fit"); }
                else if (n != p.header.size() || memcmp(buf.p.get(), p.header.data(), n)) bad("writer", p, "another header");
            }
            if (encoded_header_length(Construction::primitive, (Class)p.cls, (Tag)p.tag, p.content.size()) != p.header.size()) bad("writer", p, "encoded_header_length");
            append(p);
        }
        else if (o.name == "w_torn") // a writer which ends after the header of a packet of any size, and some content
        {
            Pkt      p = spec(o);
            uint64_t x = (uint64_t)o.arg(3), n;
            if (x % 3 == 0) n = hash64(x, 7) >> (x / 3 % 58);
            else
            {
                int shift = x / 3 % 9 == 0 ? 7 : 8 * (int)(x / 3 % 9);
                n         = (shift >= 64 ? 0 : (uint64_t)1 << shift) + (x / 27 % 5) - 2;
            }
            if (n < 64) n += 64;
            p.header = make_id(p.cls, p.tag, p.constr, 0);
            Bytes l  = make_len(n, -1);
            p.header.insert(p.header.end(), l.begin(), l.end());
            for (size_t cap = 0; cap <= p.header.size(); cap++)
            {
                Bytes  g = pick_bytes(cap + 9, cap);
                Exact  buf(g.data(), cap);
                size_t k = encode_header(buf.mut(), p.constr ? Construction::constructed : Construction::primitive, (Class)p.cls, (Tag)p.tag, n);
                if (cap < p.header.size()) { if (k != 0) bad("writer", p, "a header is reported which does not fit"); }
                else if (k != p.header.size() || memcmp(buf.p.get(), p.header.data(), k)) bad("writer", p, "another header of a large packet");
            }
            if (encoded_header_length(Construction::primitive, (Class)p.cls, (Tag)p.tag, n) != p.header.size()) bad("writer", p, "encoded_header_length of a large packet");
            Bytes tail = log, some = pick_bytes(x, (size_t)((uint64_t)o.arg(4) % 60));
            tail.insert(tail.end(), p.header.begin(), p.header.end());
            tail.insert(tail.end(), some.begin(), some.end());
            read(tail.data(), tail.size(), (int)o.arg(5), 5);
            Exact   e(tail.data() + log.size(), tail.size() - log.size());
            BerView v(e.span());
            if (v.is_valid() || v.ber_length() != 0) bad("reader", p, "a strict prefix of a large packet is valid");
            BerContainer k;
            if (k.decode(v).success || k.is_valid()) bad("reader", p, "a container holds a strict prefix of a large packet");
            c.tick("fault_torn_large_packet");
        }
        else if (o.name == "w_ref") // a writer of another implementation: any length form, padded tags
        {
            Pkt p = spec(o);
            int id_pad = (o.arg(5) & 7) == 0, len = (int)(((uint64_t)o.arg(5) >> 3) % 9);
            p.header = make_id(p.cls, p.tag, p.constr, id_pad);
            p.shortest = !(id_pad && p.tag <= 30);
            Bytes l = make_len(p.content.size(), len ? len : -1);
            p.header.insert(p.header.end(), l.begin(), l.end());
            if (len) c.tick("alt_length_form");
            if (!p.shortest) c.tick("alt_long_tag_form");
            append(p);
        }
        else if (o.name == "w_nest") // the last k packets become the content of a new one
        {
            Pkt    p = spec(o);
            size_t k = std::min<size_t>((size_t)((uint64_t)o.arg(5) % 5), written.size());
            p.constr = true;
            p.content.clear();
            for (size_t i = written.size() - k; i < written.size(); i++) { Bytes x = written[i].second.octets(); p.content.insert(p.content.end(), x.begin(), x.end()); }
            if (p.content.size() > 100000) return;
            p.header = make_id(p.cls, p.tag, true, 0);
            Bytes l = make_len(p.content.size(), -1);
            p.header.insert(p.header.end(), l.begin(), l.end());
            append(p);
            c.tick("packets_nested");
        }
        else if (o.name == "w_slot") // a stored packet is written back
        {
            Slot& x = *slot[a];
            if (!x.valid) return;
            append(x.m);
        }
        else if (o.name == "sync") { durable = log.size(); c.tick("syncs"); }
        else if (o.name == "crash") // unsynced sectors are kept, lost (zero) or cut off
        {
            Rng    r((uint64_t)o.arg(0));
            size_t sector = (size_t)1 << r.below(8);
            size_t keep   = durable + (size_t)r.below(log.size() - durable + 1);
            bool   zero   = r.chance(1, 2);
            log.resize(keep);
            c.tick("fault_crash");
            if (zero)
                for (size_t s = durable; s < keep; s += sector)
                    if (r.chance(1, 3)) { std::fill(log.begin() + (long)s, log.begin() + (long)std::min(keep, s + sector), 0); c.tick("fault_lost_sector"); }
            std::vector<Pkt> found;
            read(log.data(), log.size(), (int)o.arg(1), 0, &found);
            // every packet written before the last sync is found, in order
            size_t off = 0, i = 0;
            for (auto& w : written)
            {
                if (w.first + w.second.octets().size() > durable) break;
                if (i >= found.size() || found[i].octets() != w.second.octets()) bad("durability", w.second, "a synced packet is lost");
                i++;
            }
            c.tick("synced_packets_checked", i);
            // recovery: the log ends behind its last complete packet, as the reader found it
            std::vector<std::pair<size_t, Pkt>> now;
            for (auto& p : found) { now.push_back({off, p}); off += p.octets().size(); }
            log.resize(off);
            durable = off;
            written = now;
            follower = std::min(follower, off);
        }
        else if (o.name == "read") { read(log.data(), log.size(), (int)o.arg(0), 0); c.tick("reads"); }
        else if (o.name == "cut") // a reader sees the log while its last octets are still being written
        {
            if (log.empty()) return;
            size_t n = (size_t)((uint64_t)o.arg(0) % (std::min<size_t>(log.size(), 3000) + 1));
            read(log.data(), log.size() - n, (int)o.arg(1), 2);
            c.tick("fault_torn_tail");
        }
        else if (o.name == "cuts") // ... at every octet of the last packet
        {
            if (written.empty()) return;
            size_t from = written.back().first, len = log.size() - from;
            for (size_t n = 0; n < len; n += (len > 40 && n > 14 && n + 20 < len) ? len / 20 : 1)
            {
                Exact   e(log.data() + from, n);
                BerView v(e.span());
                if (v.is_valid()) bad("reader", written.back().second, "a strict prefix of a packet is valid");
                BerContainer x(e.span(), ConstructionMethod::construct_from_ber_packet);
                if (x.is_valid()) bad("reader", written.back().second, "a container holds a strict prefix of a packet");
                c.tick("fault_torn_packet");
            }
        }
        else if (o.name == "follow") // reads on from where it ended before
        {
            bool   odd;
            size_t end = log.size() - (size_t)((uint64_t)o.arg(0) % (std::min<size_t>(log.size() - follower, 600) + 1));
            Exact  e(log.data() + follower, end - follower);
            size_t off = 0;
            auto   want = parse(log.data() + follower, end - follower, odd);
            size_t i = 0;
            for (BerViewIterator it(e.span()); it->is_valid(); ++it, ++i)
            {
                if (i >= want.size()) { if (!odd) c.fail("reader", "the follower finds a packet which is not there"); break; }
                check_view(*it, want[i], e.p.get() + off, "follower");
                off += it->ber_length();
            }
            if (i < want.size()) c.fail("reader", "the follower misses a packet");
            follower += off;
            c.tick("followed", i);
        }
        else if (o.name == "patch") // content octets are changed in place through the mutable view
        {
            if (written.empty()) return;
            size_t                 k = (size_t)((uint64_t)o.arg(0) % written.size()), i = 0;
            Exact                  e(log.data(), log.size());
            MutableBerViewIterator it(e.mut());
            for (; it->is_valid() && i < k; ++it) i++;
            if (i != k || !it->is_valid()) c.fail("reader", "packet %zu not reached", k);
            Pkt& p = written[k].second;
            if (p.content.empty()) return;
            size_t pos = (size_t)((uint64_t)o.arg(1) % p.content.size());
            uint8_t v = (uint8_t)o.arg(2);
            if (p.constr) return;
            it->content()[pos] = v;
            if (it->content_data()[pos] != v) c.fail("reader", "content_data");
            p.content[pos] = v;
            Bytes want = log;
            want[written[k].first + p.header.size() + pos] = v;
            if (memcmp(want.data(), e.p.get(), want.size())) c.fail("reader", "another octet of the log changes");
            log = want;
            c.tick("patched");
        }
        else if (o.name == "load") // container from a packet in the log
        {
            if (written.empty()) return;
            auto& w = written[(size_t)((uint64_t)o.arg(1) % written.size())];
            {
                Bytes   oc = w.second.octets();
                Exact   e(oc.data(), oc.size());
                Slot&   x = *slot[a];
                switch ((uint64_t)o.arg(2) % 5)
                {
                case 0: x.c = BerView(e.span()); break;
                case 1: if (!x.c.decode(BerView(e.span())).success) bad("container", w.second, "decode fails"); break;
                case 2: slot[a].reset(new Slot()); slot[a]->c = BerContainer(e.span(), ConstructionMethod::construct_from_ber_packet); break;
                case 3: x.c = BerContainer(BerView(e.span())); break;
                default: if (!decode(e.span(), x.c).success) bad("container", w.second, "decode fails"); break;
                }
            } // the octets are gone
            slot[a]->valid = true;
            slot[a]->m = w.second;
            c.tick("loaded");
        }
        else if (o.name == "load_torn")
        {
            if (written.empty()) return;
            auto& w = written[(size_t)((uint64_t)o.arg(1) % written.size())];
            Bytes oc = w.second.octets();
            size_t n = (size_t)((uint64_t)o.arg(2) % oc.size());
            Exact e(oc.data(), n);
            if (slot[a]->c.decode(BerView(e.span())).success) bad("container", w.second, "a torn packet is decoded");
            slot[a]->valid = false;
            c.tick("fault_torn_packet");
        }
        else if (o.name == "copy") { if (o.arg(2) & 1) { slot[a]->c = slot[b]->c; } else { BerContainer t(slot[b]->c); slot[a]->c = std::move(t); } slot[a]->m = Pkt(slot[b]->m); slot[a]->valid = slot[b]->valid; c.tick("copied"); }
        else if (o.name == "move")
        {
            if (a == b && !(o.arg(2) & 1)) return;
            Pkt  m = slot[b]->m;
            bool v = slot[b]->valid;
            if (o.arg(2) & 1)
            {
                slot[a]->c = std::move(slot[b]->c);
                if (a == b) return;
            }
            else { auto n = std::unique_ptr<Slot>(new Slot()); BerContainer t(std::move(slot[b]->c)); n->c = std::move(t); slot[a] = std::move(n); }
            slot[b]->valid = false;
            slot[a]->m = m; slot[a]->valid = v;
            c.tick("moved");
        }
        else if (o.name == "swap") { std::swap(slot[a]->c, slot[b]->c); if (a != b) { std::swap(slot[a]->m, slot[b]->m); std::swap(slot[a]->valid, slot[b]->valid); } }
        else if (o.name == "content" || o.name == "construct_content")
        {
            Bytes x = pick_bytes((uint64_t)o.arg(2), pick_len(o.arg(1)));
            Exact e(x.data(), x.size());
            if (o.name == "content") slot[a]->c.assign_content(e.span());
            else slot[a]->c = BerContainer(e.span(), ConstructionMethod::construct_with_provided_content);
            Pkt p;
            p.content = x;
            p.header = {0};
            Bytes l = make_len(x.size(), -1);
            p.header.insert(p.header.end(), l.begin(), l.end());
            slot[a]->m = p; slot[a]->valid = true;
        }
        else if (o.name == "replace")
        {
            Op q = o;
            q.a.erase(q.a.begin(), q.a.begin() + std::min<long>(1, (long)q.a.size()));
            Pkt p = spec(q);
            Exact e(p.content.data(), p.content.size());
            slot[a]->c.assign_content(p.constr ? Construction::constructed : Construction::primitive, (Class)p.cls, p.tag, e.span());
            slot[a]->m = p; slot[a]->valid = true;
        }
        else if (o.name == "resize")
        {
            Slot& x = *slot[a];
            if (!x.valid) return;
            size_t n = pick_len(o.arg(1)), old = x.m.content.size();
            Tlv    t = parse_tlv(x.m.octets().data(), x.m.octets().size());
            size_t idlen = t.hl;
            { // identifier octets of the model
                size_t k = 1;
                if ((x.m.header[0] & 31) == 31) { while (x.m.header[k] & 0x80) k++; k++; }
                idlen = k;
            }
            if (o.arg(2)) // memory is exhausted: the packet is as before
            {
                AllocScope f(1, (uint64_t)o.arg(2));
                bool       threw = false;
                try { x.c.resize_content(n); } catch (const std::bad_alloc&) { threw = true; }
                f.stop();
                if (threw != (f.failed() > 0)) bad("container", x.m, "resize_content does not report that memory is exhausted");
                c.tick(threw ? "fault_alloc_threw" : "alloc_fault_not_reached");
                if (!threw && (!x.c.is_valid() || x.c.content_length() != n)) bad("container", x.m, "resize_content: length");
                if (threw)
                {
                    check_slot(a);
                    if (o.arg(2) > 1) { slot[a].reset(new Slot()); for (size_t s = 0; s < 5; s++) check_slot(s); return; } // can be destroyed
                }
            }
            x.c.resize_content(n);
            if (!x.c.is_valid() || x.c.content_length() != n) bad("container", x.m, "resize_content: length");
            Bytes id(x.m.header.begin(), x.m.header.begin() + (long)idlen), l = make_len(n, -1);
            x.m.header = id;
            x.m.header.insert(x.m.header.end(), l.begin(), l.end());
            x.m.content.resize(n);
            for (size_t i = old; i < n; i++) if (x.c.content()[i]) bad("container", x.m, "resize_content: a new octet is not zero");
            for (size_t i = old; i < n; i++) { x.m.content[i] = (uint8_t)(i * 7 + 1); x.c.content()[i] = x.m.content[i]; }
            c.tick("resized");
        }
        else if (o.name == "poke")
        {
            Slot& x = *slot[a];
            if (!x.valid || x.m.content.empty()) return;
            size_t pos = (size_t)((uint64_t)o.arg(1) % x.m.content.size());
            x.c.content_data()[pos] = (uint8_t)o.arg(2);
            x.m.content[pos] = (uint8_t)o.arg(2);
        }
        else return;
        for (size_t s = 0; s < 5; s++) check_slot(s);
        c.mix(log.data(), log.size());
        c.ev("%s", o.name.c_str());
        c.events++;
    }
};
} // namespace

void world_init() {}
Plan world_gen(uint64_t seed, const std::string& profile)
{
    Rng  r(seed);
    Plan p;
    auto add = [&](const char* n, std::initializer_list<long long> a) { p.push_back(Op{n, std::vector<long long>(a)}); };
    auto any = [&]() { return (long long)r.below(1000000); };
    bool exhaust = profile == "C11", containers = exhaust || r.chance(2, 3), crashes = r.chance(2, 3);
    for (long n = r.range(5, 60); n--;)
    {
        uint64_t k = r.below(20);
        if (k < 3) add("w_lib", {any(), any(), any(), any(), any(), any()});
        else if (k < 5) { if (r.chance(1, 4)) add("w_torn", {any(), any(), any(), any(), any(), any()}); else add("w_hdr", {any(), any(), any(), any(), any()}); }
        else if (k < 8) add("w_ref", {any(), any(), any(), any(), any(), any()});
        else if (k < 9) add("w_nest", {any(), any(), any(), any(), any(), any()});
        else if (k < 10 && crashes) { if (r.chance(1, 2)) add("sync", {}); else add("crash", {any(), any()}); }
        else if (k < 11) add("read", {any()});
        else if (k < 12) { if (r.chance(1, 2)) add("cut", {any(), any()}); else add("cuts", {}); }
        else if (k < 13) { if (r.chance(1, 2)) add("follow", {any()}); else add("patch", {any(), any(), any()}); }
        else if (containers)
        {
            switch (r.below(12))
            {
            case 0: case 1: add("load", {any(), any(), any()}); break;
            case 2: add("load_torn", {any(), any(), any()}); break;
            case 3: add("copy", {any(), any(), any()}); break;
            case 4: add("move", {any(), any(), any()}); break;
            case 5: add("swap", {any(), any()}); break;
            case 6: add(r.chance(1, 2) ? "content" : "construct_content", {any(), any(), any()}); break;
            case 7: add("replace", {any(), any(), any(), any(), any(), any()}); break;
            case 8: case 9: if (exhaust) add("resize", {any(), any(), (long long)r.below(4)}); else add("resize", {any(), any()}); break;
            case 10: add("poke", {any(), any(), any()}); break;
            default: add("w_slot", {any()}); break;
            }
        }
    }
    add("read", {any()});
    return p;
}
void world_run(const Plan& p, const std::string&, Ctx& c)
{
    World w(c);
    for (auto& o : p) { c.now += 1000; w.run(o); }
    sim_step_limit(0);
}
