// The wire world: peers exchanging messages of generated types over simulated links.
//   sender (fast_ber or a foreign BER implementation) -> stream or datagram link -> [relay] -> receiver
// Time, transport, fragmentation, loss, corruption, buffer space and object reuse are simulated; the encoder, the
// decoder, the generated types and the framing are the real code.
#include "core.hpp"
#include "reg.hpp"
#include "tree.hpp"

#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <memory>

#ifndef GROUPS
#error GROUPS
#endif
#define X(g) namespace g_##g { void register_types(); }
GROUPS
#undef X

void world_init()
{
#define X(g) g_##g::register_types();
    GROUPS
#undef X
}

// ------------------------------------------------------------------------------------------------------------ schema
static size_t counterpart(size_t i) // the same type in the other version of the schema
{
    auto&       R = registry();
    std::string n = R[i].name;
    if (n.compare(0, 10, "SimExtOld.") == 0) n.replace(0, 9, "SimExtNew");
    else if (n.compare(0, 10, "SimExtNew.") == 0) n.replace(0, 9, "SimExtOld");
    else return i;
    for (size_t k = 0; k < R.size(); k++) if (R[k].name == n) return k;
    return i;
}
// What a receiver with the schema `to` has to make of a value of `from`. False: it has to reject the message
static bool project(const Use& from, const Use& to, const Val& v, Val& out)
{
    const Body &a = *from.body, &b = *to.body;
    out           = v;
    switch (a.kind)
    {
    case K_SEQ:
    case K_SET:
    {
        out.kids.assign(b.fields.size(), Val());
        for (size_t i = 0; i < b.fields.size(); i++)
        {
            if (i < a.fields.size() && v.kids[i].present) { if (!project(a.fields[i].use, b.fields[i].use, v.kids[i], out.kids[i])) return false; }
            else { if (b.fields[i].mode == M_DEFAULT) out.kids[i] = b.fields[i].def; out.kids[i].present = false; }
        }
        for (size_t i = b.fields.size(); i < a.fields.size(); i++)
            if (v.kids[i].present && a.kind == K_SET && !b.ext) return false;
        return true;
    }
    case K_CHOICE:
        if (v.alt >= (int)b.fields.size()) return false;
        out.kids.assign(1, Val());
        return project(a.fields[(size_t)v.alt].use, b.fields[(size_t)v.alt].use, v.kids[0], out.kids[0]);
    case K_SEQOF:
    case K_SETOF:
        out.kids.assign(v.kids.size(), Val());
        for (size_t i = 0; i < v.kids.size(); i++) if (!project(a.elem, b.elem, v.kids[i], out.kids[i])) return false;
        return true;
    default: return true;
    }
}

// ------------------------------------------------------------------------------------------------------------- world
namespace
{
struct Msg
{
    long long      id = 0;
    const TypeOps* tx = nullptr;
    const TypeOps* rx = nullptr;
    Val            val;       // as sent
    Val            want;      // as the receiver has to read it
    bool           reject = false; // the receiver has to reject it
    bool           foreign = false, real = false, nan = false;
    Bytes          bytes;
    int            api = 0, slot = 0, style = 0, relay = 0;
    uint64_t       forms = 0;
    int            received = 0, expected = 0;
    bool           sent = false;
};
struct Slot
{
    Obj  o;
    Val  model;
    bool sane = true; // false after a failed decode or when moved from
    Slot(const TypeOps& t) : o(t) { model = o.val(); }
};
struct Fault { std::string kind; std::vector<long long> a; };

struct World
{
    Ctx&        c;
    std::string profile;
    Queue       q;
    std::map<long long, Msg>                             msgs;
    std::map<long long, std::vector<Fault>>              faults;   // by message
    std::map<const TypeOps*, std::vector<std::unique_ptr<Slot>>> slots;
    long long                                            tx_cap = 0, tx_drain = 0; // bounded transmit buffer
    struct Link
    {
        int       kind = 0, relay = 0;
        uint64_t  fragseed = 1; long long maxchunk = 64;
        std::vector<long long> cuts; // offsets, ascending, counted from the start of each connection
        // sender's side
        Bytes     out;          // written in this connection, flushed up to `flushed`
        size_t    flushed = 0, cut_at = SIZE_MAX;
        int       epoch = 0;
        uint64_t  chunks = 0;
        int64_t   last = 0;
        bool      flush_pending = false;
        std::vector<std::pair<size_t, long long>> starts; // (offset, message) in this connection
        // receiver's side
        Bytes     in;
        size_t    consumed = 0;
        int       rx_epoch = 0;
        std::vector<std::vector<std::pair<size_t, long long>>> rx_starts; // by epoch
        std::vector<bool> damaged; // by epoch: octets were altered
    };
    std::map<long long, Link> links;

    World(Ctx& x, const std::string& p) : c(x), profile(p) {}

    // Octets in memory of exactly their length: an access outside of them is an error the sanitizer reports
    struct Exact
    {
        uint8_t* p;
        size_t   n;
        Exact(const uint8_t* d, size_t len) : p((uint8_t*)malloc(len)), n(len) { if (len) memcpy(p, d, len); }
        ~Exact() { if (p) { memset(p, 0xA5, n); free(p); } }
        Exact(const Exact&) = delete;
    };

    std::string brief(const Bytes& b) { return hex(b.data(), std::min<size_t>(b.size(), 120)) + (b.size() > 120 ? "..." : ""); }

    size_t biggest = 0; // message so far: earlier content of an object takes steps to be released
    bool decode(const TypeOps& t, void* o, const uint8_t* p, size_t n, int api, bool used = false)
    {
        bool ok;
        biggest = std::max(biggest, n);
        {
            Exact e(p, n);
            sim_step_limit(30000 + 4000 * (used ? n + biggest : n));
            AllocScope a(0, 1, (1 << 20) + 16384 * (int64_t)n);
            ok = t.decode(o, e.p, n, api);
            a.stop();
            sim_step_limit(0);
        } // the receive buffer is overwritten and released here
        c.tick(ok ? "decode_ok" : "decode_rejected");
        return ok;
    }
    bool encode(const TypeOps& t, const void* o, Bytes& out, int api)
    {
        size_t len = t.encoded_length(o, api & 1), n = 0;
        Exact  e(nullptr, 0);
        free(e.p);
        e.p = (uint8_t*)malloc(len); e.n = len;
        memset(e.p, 0xCC, len);
        sim_step_limit(30000 + 4000 * len);
        AllocScope a;
        bool       ok = t.encode(o, e.p, len, n, api & 1);
        a.stop();
        sim_step_limit(0);
        biggest = std::max(biggest, len);
        if (a.count()) c.fail("encode-allocates", "%s: encoding allocated memory %llu times", t.name.c_str(), (unsigned long long)a.count());
        if (ok && n > len) c.fail("encode-length", "%s: encode reported %zu octets in a buffer of %zu", t.name.c_str(), n, len);
        out.assign(e.p, e.p + (ok ? n : 0));
        if (!ok || n != len) c.fail("encode-failed", "%s: encode into a buffer of the reported length %zu gave %d, length %zu", t.name.c_str(), len, ok, n);
        return ok;
    }

    // ------------------------------------------------------------------------------------------------------- sender
    void send(Msg& m, long long link, uint64_t vseed, int size, int foreign)
    {
        const TypeOps& t = *m.tx;
        m.foreign        = foreign != 0;
        if (!foreign)
        {
            Obj o(t);
            if (m.style & 64) // an object with a history
            {
                t.from_val(gen_value(t.use, vseed ^ 0x5555, size), o.p, m.style >> 1);
                if (m.style & 128) { Bytes b; encode(t, o.p, b, 0); decode(t, o.p, b.data(), b.size() - (b.size() > 3 ? 2 : 0), 0, true); }
            }
            t.from_val(m.val, o.p, m.style);
            std::string w;
            if (!val_equal(t.use, o.val(), m.val, &w)) c.fail("set-value", "%s: reads back differently than set: %s", t.name.c_str(), w.c_str());
            if (profile == "C01") { bounded(m, o, vseed); }
            encode(t, o.p, m.bytes, m.api);
            if (m.api & 2)
            {
                Obj k(t, t.copy(o.p));
                Bytes b;
                encode(t, k.p, b, 0);
                if (b != m.bytes) c.fail("copy-encodes", "%s: a copy is encoded differently", t.name.c_str());
            }
            Bytes canon = ref_encode(t.use, m.val);
            if (!m.real && canon != m.bytes)
                c.fail("wire-format", "%s: sent %s, X.690 prescribes %s", t.name.c_str(), brief(m.bytes).c_str(), brief(canon).c_str());
            RefDecode r = ref_decode(t.use, m.bytes.data(), m.bytes.size());
            if (!r.ok || r.consumed != m.bytes.size() || !val_equal(t.use, r.val, m.val, &w))
                c.fail("wire-value", "%s: an independent decoder reads %s in %s", t.name.c_str(), r.ok ? w.c_str() : r.why.c_str(), brief(m.bytes).c_str());
        }
        else if (foreign == 1) m.bytes = ref_encode(t.use, m.val);
        else
        {
            uint64_t allow = foreign == 2 ? ~(1ull << A_UNKNOWN) : foreign == 3 ? ~0ull : 1ull << A_UNKNOWN;
            m.bytes        = ref_encode_alt(t.use, m.val, vseed ^ 77, m.forms, allow);
            static const char* n[] = {"alt_long_length", "alt_padded_length", "alt_set_order", "alt_explicit_default", "alt_true", "alt_padded_integer", "alt_real", "alt_unknown_element"};
            for (int i = 0; i < A_COUNT; i++) if (m.forms >> i & 1) c.tick(n[i]);
        }
        c.ev("send %lld %s %zu octets %016llx", m.id, t.name.c_str(), m.bytes.size(), (unsigned long long)hash_str(std::string(m.bytes.begin(), m.bytes.end())));
        if (c.verbose) fprintf(stderr, "            %s\n            %s\n", m.val.str().c_str(), brief(m.bytes).c_str());
        m.sent = true;
        transmit(m, link);
    }

    // C01: the transmit buffer has limited space which is freed over time; the capacity of every attempt is a fault
    void bounded(Msg& m, Obj& o, uint64_t vseed)
    {
        const TypeOps& t   = *m.tx;
        size_t         len = t.encoded_length(o.p, 0);
        if (t.encoded_length(o.p, 1) != len) c.fail("length", "%s: lengths differ between interfaces", t.name.c_str());
        Bytes full;
        encode(t, o.p, full, 0);
        std::vector<size_t> caps;
        Rng                 r(vseed ^ 99);
        if (len <= 300) for (size_t i = 0; i <= len + 3; i++) caps.push_back(i);
        else
        {
            for (size_t i = 0; i <= 20; i++) caps.push_back(i);
            for (size_t i = 0; i <= 6; i++) caps.push_back(len - 3 + i);
            std::vector<std::pair<size_t, Tlv>> tl;
            collect_tlvs(full.data(), 0, full.size(), tl);
            for (int i = 0; i < 30 && !tl.empty(); i++) { auto& x = tl[r.below(tl.size())]; caps.push_back(x.first + r.below(x.second.hl + 2)); caps.push_back(x.first + x.second.hl + x.second.cl - r.below(2)); }
            for (int i = 0; i < 20; i++) caps.push_back(r.below(len + 40));
        }
        for (size_t i = caps.size(); i > 1; i--) std::swap(caps[i - 1], caps[r.below(i)]);
        for (size_t cap : caps) attempt(t, o, cap, len, full, r.next());
        Val after = o.val();
        if (!val_equal(t.use, after, m.val)) c.fail("changed", "%s: encoding changed the object", t.name.c_str());
        // draining transmit buffer
        if (tx_cap > 0)
        {
            long long free_space = 0; int tries = 0;
            for (;; tries++)
            {
                bool ok = attempt(t, o, (size_t)free_space, len, full, r.next());
                if (ok) break;
                free_space += tx_drain > 0 ? tx_drain : 1;
                c.now += 100;
                c.tick("fault_buffer_full");
                if (free_space > tx_cap && free_space > (long long)len + tx_drain) c.fail("no-progress", "%s: does not fit although %lld octets are free", t.name.c_str(), free_space);
                if (tries > 400) free_space = (long long)len;
                if (tries > 405) c.fail("no-progress", "%s", t.name.c_str());
            }
        }
        // other objects: partially decoded, moved from, default constructed
        Obj d(t);
        if (len > 1) decode(t, d.p, full.data(), full.size(), 0);
        Bytes mut = full;
        mut[r.below(mut.size())] ^= (uint8_t)(1 << r.below(8));
        decode(t, d.p, mut.data(), mut.size(), 0, true);
        sweep(t, d, r);
        Obj k(t, t.copy(o.p)), mv(t, t.move(k.p));
        sweep(t, k, r);
        sweep(t, mv, r);
    }
    void sweep(const TypeOps& t, Obj& o, Rng& r)
    {
        if (has_valueless(t.use, o.val())) return;
        size_t len = t.encoded_length(o.p, 0);
        Bytes  full;
        encode(t, o.p, full, 0);
        for (int i = 0; i < 6; i++) attempt(t, o, i == 0 ? len : i == 1 && len ? len - 1 : r.below(len + 2), len, full, r.next());
    }
    bool attempt(const TypeOps& t, Obj& o, size_t cap, size_t len, const Bytes& full, uint64_t seed)
    {
        Rng      r(seed);
        Bytes    noise(cap);
        int      mode = (int)r.below(3);
        for (auto& x : noise) x = mode == 0 ? 0 : mode == 1 ? 0xff : (uint8_t)r.below(256);
        Exact    e(noise.data(), cap);
        size_t   n = 0;
        sim_step_limit(30000 + 4000 * len);
        AllocScope a;
        bool     ok = t.encode(o.p, e.p, cap, n, (int)r.below(2));
        a.stop();
        sim_step_limit(0);
        c.tick("encode_attempt");
        c.mix(hash64(cap, ok));
        if (cap < len) c.tick("fault_capacity_too_small");
        if (ok != (cap >= len)) c.fail("capacity", "%s: encode into %zu octets gave %d, reported length %zu", t.name.c_str(), cap, ok, len);
        if (ok && n != len) c.fail("capacity-length", "%s: encode returned length %zu, reported %zu", t.name.c_str(), n, len);
        if (ok && memcmp(e.p, full.data(), len)) c.fail("capacity-octets", "%s: octets depend on the buffer (capacity %zu, length %zu)", t.name.c_str(), cap, len);
        if (a.count()) c.fail("encode-allocates", "%s: encoding allocated memory", t.name.c_str());
        c.state(hash64(hash_str(t.name), hash64(cap >= len ? 1000 + std::min<size_t>(cap - len, 4) : len - cap > 40 ? 40 : len - cap, 3)));
        return ok;
    }

    // ---------------------------------------------------------------------------------------------------- transport
    Bytes corrupt(const Msg& m, bool& changed)
    {
        Bytes b = m.bytes;
        auto  it = faults.find(m.id);
        changed  = false;
        if (it == faults.end()) return b;
        for (auto& f : it->second)
        {
            auto      A = [&](size_t i) { return i < f.a.size() ? (uint64_t)f.a[i] : 0; };
            Bytes     old = b;
            if (f.kind == "flip" && !b.empty()) b[A(0) % b.size()] ^= (uint8_t)(1 << (A(1) & 7));
            else if (f.kind == "set" && !b.empty()) b[A(0) % b.size()] = (uint8_t)A(1);
            else if (f.kind == "trunc" && !b.empty()) b.resize(b.size() - 1 - A(0) % b.size());
            else if (f.kind == "ins") { Rng r(A(1)); Bytes x(A(2) % 20 + 1); for (auto& y : x) y = (uint8_t)r.below(256); b.insert(b.begin() + (long)(A(0) % (b.size() + 1)), x.begin(), x.end()); }
            else if (f.kind == "del" && !b.empty()) { size_t p = A(0) % b.size(); b.erase(b.begin() + (long)p, b.begin() + (long)std::min(b.size(), p + 1 + A(1) % 8)); }
            else if (f.kind == "hdr")
            {
                std::vector<std::pair<size_t, Tlv>> tl;
                collect_tlvs(b.data(), 0, b.size(), tl);
                if (!tl.empty())
                {
                    auto&  t = tl[A(0) % tl.size()];
                    size_t p = t.first + A(1) % t.second.hl;
                    switch (A(2) % 6)
                    {
                    case 0: b[p] = (uint8_t)A(3); break;
                    case 1: b[p] = (uint8_t)(b[p] + 1); break;
                    case 2: b[p] = (uint8_t)(b[p] - 1); break;
                    case 3: b[p] ^= (uint8_t)(1 << (A(3) & 7)); break;
                    case 4: // a huge length field
                    {
                        size_t lp = t.first + t.second.hl; // replace the last length octet by a long form
                        Bytes  x{(uint8_t)(0x80 | (1 + A(3) % 9))};
                        Rng    r(A(3));
                        bool   ff = r.chance(1, 2);
                        for (size_t i = 0; i < 1 + A(3) % 9; i++) x.push_back(ff ? 0xff : (uint8_t)(r.chance(1, 2) ? 0 : r.below(256)));
                        b.erase(b.begin() + (long)lp - 1);
                        b.insert(b.begin() + (long)lp - 1, x.begin(), x.end());
                        break;
                    }
                    default: { static const uint8_t k[] = {0x80, 0xff, 0x81, 0x88, 0x89, 0x7f, 0x00, 0x1f, 0x3f, 0xbf, 0x9f}; b[p] = k[A(3) % 11]; break; }
                    }
                }
            }
            else if (f.kind == "tree") b = tree_edit(b, A(0), (int)(A(1) % T_OPS), A(2));
            else if (f.kind == "splice")
            {
                auto o = msgs.find((long long)A(0));
                if (o != msgs.end() && o->second.sent) { size_t p = A(1) % (b.size() + 1), s = A(2) % (o->second.bytes.size() + 1); b.resize(p); b.insert(b.end(), o->second.bytes.begin() + (long)s, o->second.bytes.end()); }
            }
            else if (f.kind == "fill") { Rng r(A(0)); b.resize(A(1) % 60); for (auto& x : b) x = (uint8_t)r.below(256); }
            else continue;
            if (b != old) { changed = true; c.tick(("fault_" + f.kind + (f.kind == "tree" ? std::string("_") + tree_op_name((int)(A(1) % T_OPS)) : "")).c_str()); }
        }
        changed = b != m.bytes;
        return b;
    }
    long long fault_arg(long long id, const char* kind, long long none, size_t i = 0)
    {
        auto it = faults.find(id);
        if (it != faults.end()) for (auto& f : it->second) if (f.kind == kind) return i < f.a.size() ? f.a[i] : 0;
        return none;
    }
    void transmit(Msg& m, long long l)
    {
        Link& k = links[l];
        m.relay = k.relay;
        if (k.kind == 1)
        {
            if (fault_arg(m.id, "drop", -1) >= 0) { c.tick("fault_drop"); c.ev("drop %lld", m.id); return; }
            int64_t   d    = fault_arg(m.id, "delay", 0);
            if (d) c.tick("fault_delay");
            long long dups = fault_arg(m.id, "dup", 0) % 4;
            bool      changed;
            Bytes     b = corrupt(m, changed);
            for (long long i = 0; i <= dups; i++)
            {
                if (i) c.tick("fault_duplicate");
                m.expected++;
                q.at(c.now + 50 + d + i * (37 + fault_arg(m.id, "dup", 0, 1)), [this, &m, b, changed] { arrive(m, b, changed); });
            }
            return;
        }
        if (k.rx_starts.empty()) { k.rx_starts.resize(1); k.damaged.resize(1); open_connection(k); }
        bool  changed;
        Bytes b = corrupt(m, changed);
        if (changed) k.damaged[(size_t)k.epoch] = true;
        k.starts.push_back({k.out.size(), m.id});
        k.rx_starts[(size_t)k.epoch].push_back({k.out.size(), m.id});
        k.out.insert(k.out.end(), b.begin(), b.end());
        schedule_flush(k);
    }
    void open_connection(Link& k)
    {
        k.out.clear(); k.flushed = 0; k.starts.clear();
        k.cut_at = SIZE_MAX;
        if (!k.cuts.empty()) { k.cut_at = (size_t)k.cuts.front(); k.cuts.erase(k.cuts.begin()); }
    }
    void schedule_flush(Link& k)
    {
        if (k.flush_pending) return;
        k.flush_pending = true;
        uint64_t h = hash64(k.fragseed, 500000 + k.chunks);
        q.at(c.now + (int64_t)(h % 400), [this, &k] { k.flush_pending = false; flush(k); });
    }
    void flush(Link& k)
    {
        while (k.flushed < k.out.size())
        {
            if (k.flushed >= k.cut_at) break;
            uint64_t h    = hash64(k.fragseed, k.chunks++);
            size_t   n    = 1 + (size_t)(h % (uint64_t)std::max<long long>(std::max(1ll, k.maxchunk), (long long)(k.out.size() - k.flushed) / 1000));
            n             = std::min(n, k.out.size() - k.flushed);
            if (k.cut_at != SIZE_MAX) n = std::min(n, k.cut_at - k.flushed);
            Bytes chunk(k.out.begin() + (long)k.flushed, k.out.begin() + (long)(k.flushed + n));
            k.flushed += n;
            if (k.flushed < k.out.size()) c.tick("fault_fragmented");
            k.last    = std::max(k.last + 1, c.now + 20 + (int64_t)(h >> 32) % 300);
            int e     = k.epoch;
            q.at(k.last, [this, &k, chunk, e] { on_chunk(k, chunk, e); });
        }
        if (k.cut_at != SIZE_MAX && k.out.size() > k.cut_at)
        {   // the connection is torn within the message in flight; what was written after it is lost, too
            c.tick("fault_connection_cut");
            c.ev("cut epoch %d at %zu of %zu", k.epoch, k.cut_at, k.out.size());
            k.epoch++;
            k.rx_starts.emplace_back();
            k.damaged.push_back(false);
            int e = k.epoch;
            k.last = std::max(k.last + 1, c.now + 30);
            q.at(k.last, [this, &k, e] { k.in.clear(); k.consumed = 0; k.rx_epoch = e; c.ev("reset %d", e); });
            open_connection(k);
        }
    }

    // ----------------------------------------------------------------------------------------------------- receiver
    const std::pair<size_t, long long>* starts_at(Link& k, size_t off)
    {
        for (auto& s : k.rx_starts[(size_t)k.rx_epoch]) if (s.first == off) return &s;
        return nullptr;
    }
    void on_chunk(Link& k, const Bytes& chunk, int epoch)
    {
        if (epoch != k.rx_epoch) return;
        k.in.insert(k.in.end(), chunk.begin(), chunk.end());
        c.tick("chunk");
        while (!k.in.empty())
        {
            auto* s       = starts_at(k, k.consumed);
            bool  damaged = k.damaged[(size_t)epoch];
            Msg*  m       = s ? &msgs[s->second] : nullptr;
            const TypeOps& t = m ? *m->rx : registry()[0];
            size_t len;
            {
                Exact e(k.in.data(), k.in.size());
                sim_step_limit(100000);
                len = t.frame(e.p, k.in.size());
                sim_step_limit(0);
            }
            Tlv p = parse_tlv(k.in.data(), k.in.size());
            size_t plen = p.ok ? p.hl + p.cl : 0;
            if (plen != len && !(p.odd && len == 0)) c.fail("framing", "framed %zu octets where the packet has %zu (%zu received)", len, plen, k.in.size());
            c.mix(len);
            if (len == 0)
            {
                c.tick("incomplete");
                if (m && !damaged)
                {
                    if (k.in.size() >= m->bytes.size()) c.fail("framing", "%s: complete message of %zu octets is not framed", t.name.c_str(), m->bytes.size());
                    must_reject(*m, k.in);
                }
                return;
            }
            Bytes b(k.in.begin(), k.in.begin() + (long)len);
            if (!damaged)
            {
                if (!m) c.fail("framing", "framed a message where none starts");
                if (len != m->bytes.size()) c.fail("framing", "%s: framed %zu octets, the message has %zu", t.name.c_str(), len, m->bytes.size());
                m->expected++;
                // decode with what follows still in the buffer
                Obj o(t);
                if (k.in.size() > len)
                {
                    c.tick("coalesced");
                    bool ok = decode(t, o.p, k.in.data(), k.in.size(), m->api);
                    if (ok == m->reject) c.fail("coalesced", "%s: decode with further octets in the buffer gave %d", t.name.c_str(), ok);
                    if (ok) same(t, o.val(), m->want, "coalesced", b);
                }
                arrive(*m, b, false);
            }
            else if (m) { m->expected++; arrive(*m, b, b != m->bytes); }
            k.in.erase(k.in.begin(), k.in.begin() + (long)len);
            k.consumed += len;
        }
    }
    // Only a part of the message is there
    void must_reject(Msg& m, const Bytes& part)
    {
        const TypeOps& t = *m.rx;
        Slot&          s = slot(t, m.slot ? m.slot : 1);
        c.tick("prefix_decode");
        if (decode(t, s.o.p, part.data(), part.size(), m.api, true)) c.fail("prefix", "%s: %zu of %zu octets are accepted: %s", t.name.c_str(), part.size(), m.bytes.size(), brief(part).c_str());
        refresh(s);
        c.state(hash64(hash_str(t.name), hash64(2, std::min<size_t>(part.size(), 64))));
    }

    Slot& slot(const TypeOps& t, int i)
    {
        auto& v = slots[&t];
        while (v.size() < 4) v.emplace_back(new Slot(t));
        return *v[(size_t)i & 3];
    }
    void refresh(Slot& s) { s.model = s.o.val(); s.sane = false; }
    void same(const TypeOps& t, const Val& got, const Val& want, const char* what, const Bytes& b)
    {
        std::string w;
        if (!val_equal(t.use, got, want, &w)) c.fail("value", "%s (%s): %s in %s", t.name.c_str(), what, w.c_str(), brief(b).c_str());
    }
    void check_slots(const TypeOps& t, const char* after)
    {
        for (auto& s : slots[&t])
        {
            std::string w;
            if (!val_equal(t.use, s->o.val(), s->model, &w)) c.fail("independence", "%s: an object which was not touched has changed after %s: %s", t.name.c_str(), after, w.c_str());
        }
    }

    void arrive(Msg& m, const Bytes& b, bool changed)
    {
        if (m.relay && !changed)
        {
            const TypeOps& t = *m.tx;
            Slot&          s = slot(t, 3); // the relay's object is reused for everything
            c.tick("relayed");
            if (!decode(t, s.o.p, b.data(), b.size(), m.api, true)) c.fail("relay", "%s: the relay rejects %s", t.name.c_str(), brief(b).c_str());
            s.model = s.o.val();
            same(t, s.model, m.val, "relay", b);
            Bytes f;
            encode(t, s.o.p, f, m.api);
            if ((!m.foreign || (!m.real && m.forms == 0)) && f != b) c.fail("relay-octets", "%s: relay received %s forwards %s", t.name.c_str(), brief(b).c_str(), brief(f).c_str());
            q.at(c.now + 40, [this, &m, f] { receive(m, f, false); });
            return;
        }
        receive(m, b, changed);
    }

    void receive(Msg& m, const Bytes& b, bool changed)
    {
        const TypeOps& t = *m.rx;
        m.received++;
        Obj  o(t);
        bool ok = decode(t, o.p, b.data(), b.size(), m.api);
        Val  got;
        if (ok) got = o.val();
        RefDecode r = ref_decode(t.use, b.data(), b.size());
        c.ev("receive %lld %s %zu octets changed %d ok %d %s", m.id, t.name.c_str(), b.size(), changed, ok, ok ? got.str().substr(0, 300).c_str() : "");
        if (c.verbose && changed) fprintf(stderr, "            %s ref ok %d strict %d %s\n", brief(b).c_str(), r.ok, r.strict, r.why.c_str());
        c.state(hash64(hash_str(t.name), hash64((uint64_t)changed * 4 + (uint64_t)ok * 2 + m.foreign, changed ? hash_str(r.why) : hash64(std::min<size_t>(b.size(), 50), m.forms))));
        if (!changed)
        {
            if (ok == m.reject) c.fail(m.reject ? "not-rejected" : "rejected", "%s: %s %s", t.name.c_str(), m.reject ? "accepts a message with parts it cannot know:" : "rejects", brief(b).c_str());
            if (ok) same(t, got, m.want, "received", b);
            if (!m.reject && (!r.ok || !val_equal(t.use, r.val, m.want))) c.fail("model", "the reference decoder disagrees about %s: %s", t.name.c_str(), brief(b).c_str());
        }
        else
        {
            if (r.ok && r.strict && !ok) c.fail("rejected", "%s: rejects %s", t.name.c_str(), brief(b).c_str());
            if (!r.ok && ok) c.fail("forged", "%s: accepts %s although %s", t.name.c_str(), brief(b).c_str(), r.why.c_str());
            if (ok) same(t, got, r.val, "corrupted message", b);
            c.tick(ok ? "corrupted_accepted_with_its_value" : "corrupted_rejected");
        }
        bool valueless = has_valueless(t.use, o.val());
        // whether decoding succeeded or not, the object remains usable
        if (!valueless) { Bytes x; encode(t, o.p, x, m.api); }
        if (ok) after_decode(m, b, o, got, changed, r);
        if (m.slot) into_used(m, b, o, ok, got);
    }

    void after_decode(Msg& m, const Bytes& b, Obj& o, const Val& got, bool changed, const RefDecode& r)
    {
        const TypeOps& t = *m.rx;
        Bytes          again;
        encode(t, o.p, again, m.api);
        bool canonical = !changed && m.tx == m.rx && (!m.foreign || (m.forms == 0 && !m.real));
        if (canonical && again != b) c.fail("reencode", "%s: received %s encodes to %s", t.name.c_str(), brief(b).c_str(), brief(again).c_str());
        if (!(changed && !r.strict)) // octets without a meaning need not survive
        {
            Obj o2(t);
            if (!decode(t, o2.p, again.data(), again.size(), 0)) c.fail("reencode", "%s: rejects its own encoding %s of %s", t.name.c_str(), brief(again).c_str(), brief(b).c_str());
            same(t, o2.val(), got, "encoded again", again);
            if (!has_nan(t.use, got))
            {
                int e = t.equal(o.p, o2.p), ne = t.nequal(o.p, o2.p);
                if (e == 0 || (e == 1 && ne != 0)) c.fail("equality", "%s: == gives %d, != gives %d for equal values %s", t.name.c_str(), e, ne, brief(b).c_str());
            }
            RefDecode r2 = ref_decode(t.use, again.data(), again.size());
            if (!r2.ok || !val_equal(t.use, r2.val, got)) c.fail("reencode", "%s: an independent decoder reads %s differently", t.name.c_str(), brief(again).c_str());
        }
        if (m.style & 256) // a copy, which the original does not influence
        {
            Obj k(t, t.copy(o.p));
            t.from_val(gen_value(t.use, (uint64_t)m.style + 5, 3), o.p, m.style);
            same(t, k.val(), got, "copy", b);
            Bytes x;
            encode(t, k.p, x, 0);
            if (x != again) c.fail("copy", "%s: the copy of a received message encodes to %s, the original to %s", t.name.c_str(), brief(x).c_str(), brief(again).c_str());
            t.assign(o.p, k.p);
            Obj mv(t, t.move(k.p));
            same(t, mv.val(), got, "move", b);
            same(t, o.val(), got, "assignment", b);
            encode(t, mv.p, x, 0);
            if (x != again) c.fail("copy", "%s: the moved message encodes to %s, the original to %s", t.name.c_str(), brief(x).c_str(), brief(again).c_str());
            encode(t, o.p, x, 0);
            if (x != again) c.fail("copy", "%s: the assigned message encodes to %s, the original to %s", t.name.c_str(), brief(x).c_str(), brief(again).c_str());
            c.tick("copied_and_moved");
        }
        if (m.style & 512) { c.mix(hash_str(t.print(o.p))); c.tick("printed"); }
        if (m.style & 1024)
        {   // differs from another value exactly if the values differ
            Obj n(t);
            Val v = gen_value(t.use, (uint64_t)m.style * 7, 4);
            t.from_val(v, n.p, m.style);
            int e = t.equal(o.p, n.p), ne = t.nequal(o.p, n.p);
            if (e != 2 && e == ne) c.fail("equality", "%s: == and != agree", t.name.c_str());
        }
    }

    // C06: the result depends on the octets only, not on what the object held
    void into_used(Msg& m, const Bytes& b, Obj& fresh, bool ok, const Val& got)
    {
        const TypeOps& t = *m.rx;
        Slot&          s = slot(t, m.slot);
        bool           u = decode(t, s.o.p, b.data(), b.size(), (m.api + 1) & 3, true);
        c.tick("decode_into_used");
        c.state(hash64(hash_str(t.name), hash64(77, s.sane * 2 + ok)));
        if (u != ok) c.fail("history", "%s: a used object gives %d, a new one %d for %s", t.name.c_str(), u, ok, brief(b).c_str());
        if (!ok) { refresh(s); check_slots(t, "a failed decode"); return; }
        s.model = s.o.val();
        s.sane  = true;
        std::string w;
        if (!val_equal(t.use, s.model, got, &w)) c.fail("history", "%s: a used object holds another value: %s", t.name.c_str(), w.c_str());
        Obj n(t);
        (void)fresh;
        if (!decode(t, n.p, b.data(), b.size(), m.api)) c.fail("history", "%s: decoding twice differs", t.name.c_str());
        Bytes x, y;
        encode(t, s.o.p, x, 0);
        encode(t, n.p, y, 0);
        if (x != y) c.fail("history", "%s: a used object encodes to %s, a new one to %s", t.name.c_str(), brief(x).c_str(), brief(y).c_str());
        if (!has_nan(t.use, got) && t.equal(s.o.p, n.p) == 0) c.fail("history", "%s: a used object is not equal to a new one", t.name.c_str());
        check_slots(t, "a decode");
    }

    void object_op(const Op& o)
    {
        auto&          R = registry();
        const TypeOps& t = R[(size_t)(o.arg(1) % (long long)R.size())];
        Slot &         a = slot(t, (int)(o.arg(3) & 3)), &b = slot(t, (int)(o.arg(4) & 3));
        static const char* names[] = {"copy", "assign", "move", "set", "self_assign", "encode", "swap", "replace"};
        int                op = (int)(o.arg(2) & 7);
        c.tick((std::string("object_") + names[op]).c_str());
        c.ev("object %s %s", t.name.c_str(), names[op]);
        switch (op)
        {
        case 0: { Obj k(t, t.copy(b.o.p)); a.o = std::move(k); a.model = b.model; a.sane = b.sane; break; }
        case 1: t.assign(a.o.p, b.o.p); a.model = b.model; a.sane = b.sane; break;
        case 2:
            if (&a == &b) break;
            t.move_assign(a.o.p, b.o.p); a.model = b.model; a.sane = b.sane; refresh(b);
            break;
        case 3: a.model = gen_value(t.use, (uint64_t)o.arg(5), (int)(o.arg(6) % 7)); t.from_val(a.model, a.o.p, (int)o.arg(5)); a.sane = true; biggest = std::max(biggest, t.encoded_length(a.o.p, 0)); break;
        case 4: t.assign(a.o.p, a.o.p); break;
        case 5: if (!has_valueless(t.use, a.model)) { Bytes x; encode(t, a.o.p, x, 0); } break;
        case 6: if (&a != &b) { std::swap(a.o.p, b.o.p); std::swap(a.model, b.model); std::swap(a.sane, b.sane); Obj k(t, t.move(a.o.p)); t.assign(a.o.p, b.o.p); t.assign(b.o.p, k.p); std::swap(a.model, b.model); std::swap(a.sane, b.sane); } break;
        default: { Obj n(t); a.o = std::move(n); a.model = a.o.val(); a.sane = true; break; }
        }
        // equal and unequal values compare so
        std::string w;
        if (!val_equal(t.use, a.o.val(), a.model, &w)) c.fail("object", "%s: holds another value after %s: %s", t.name.c_str(), names[op], w.c_str());
        check_slots(t, names[op]);
    }

    void run(const Plan& p)
    {
        auto& R = registry();
        for (auto& o : p)
        {
            if (o.name == "link") { Link& l = links[o.arg(0)]; l.kind = (int)o.arg(1); l.relay = (int)o.arg(2); }
            else if (o.name == "frag") { Link& l = links[o.arg(0)]; l.fragseed = (uint64_t)o.arg(1); l.maxchunk = std::max(1ll, o.arg(2)); }
            else if (o.name == "cut") links[o.arg(0)].cuts.push_back(o.arg(1));
            else if (o.name == "tx") { tx_cap = o.arg(0); tx_drain = o.arg(1); }
        }
        for (auto& o : p)
        {
            if (o.name == "msg")
            {
                Msg& m = msgs[o.arg(0)];
                m.id   = o.arg(0);
                size_t ti = (size_t)(o.arg(3) % (long long)R.size());
                m.tx = &R[ti];
                m.rx = o.arg(10) ? &R[counterpart(ti)] : m.tx;
                m.style = (int)o.arg(6); m.api = (int)o.arg(7) & 3; m.slot = (int)o.arg(9) % 3;
                Op op = o;
                q.at(o.arg(1), [this, op] {
                    Msg& x = msgs[op.arg(0)];
                    x.val  = gen_value(x.tx->use, (uint64_t)op.arg(4), (int)op.arg(5));
                    x.real = has_real(x.tx->use, x.val);
                    x.nan  = has_nan(x.tx->use, x.val);
                    x.reject = !project(x.tx->use, x.rx->use, x.val, x.want);
                    if (x.tx != x.rx) c.tick(x.reject ? "skew_must_reject" : "skew_must_accept");
                    send(x, op.arg(2), (uint64_t)op.arg(4), (int)op.arg(5), (int)op.arg(8));
                    if (profile == "C03") prefixes(x);
                });
            }
            else if (o.name == "obj") { Op op = o; q.at(o.arg(0), [this, op] { object_op(op); }); }
            else if (o.name != "link" && o.name != "frag" && o.name != "cut" && o.name != "tx" && !o.a.empty())
                faults[o.arg(0)].push_back(Fault{o.name, std::vector<long long>(o.a.begin() + 1, o.a.end())});
        }
        q.run(c, 200000);
        // every message which the transport delivered was processed, each time it was delivered
        for (auto& m : msgs) if (m.second.received != m.second.expected) c.fail("lost", "message %lld was received %d times, delivered %d times", m.first, m.second.received, m.second.expected);
        for (auto& l : links)
        {
            Link& k = l.second;
            if (k.kind == 0 && !k.rx_starts.empty() && !k.damaged[(size_t)k.epoch] && k.consumed != k.out.size())
                c.fail("liveness", "%zu of %zu octets were consumed at the end", k.consumed, k.out.size());
        }
        for (auto& s : slots) for (auto& x : s.second) if (!has_valueless(s.first->use, x->o.val())) { Bytes b; encode(*s.first, x->o.p, b, 0); }
    }
    // every strict prefix of small messages, and some of the larger ones
    void prefixes(Msg& m)
    {
        const TypeOps& t = *m.rx;
        Rng            r((uint64_t)m.id + m.bytes.size());
        size_t         n = m.bytes.size(), tries = std::min<size_t>(n, n > 2000 ? 12 : n > 300 ? 40 : 120);
        Obj            o(t);
        for (size_t i = 0; i < tries; i++)
        {
            size_t cut = tries == n ? i : r.chance(1, 3) ? n - 1 - r.below(6) : r.below(n);
            Exact  e(m.bytes.data(), cut);
            if (t.frame(e.p, cut) != 0) c.fail("prefix-framing", "%s: %zu of %zu octets are framed", t.name.c_str(), cut, n);
            if (decode(t, o.p, m.bytes.data(), cut, (int)r.below(4), true)) c.fail("prefix", "%s: %zu of %zu octets are accepted", t.name.c_str(), cut, n);
            c.tick("fault_torn_message");
        }
        // the object used in the failed attempts receives the complete message
        bool ok = decode(t, o.p, m.bytes.data(), n, m.api, true);
        if (ok == m.reject) c.fail("resume", "%s: complete message gives %d after failed attempts", t.name.c_str(), ok);
        if (ok) same(t, o.val(), m.want, "after failed attempts", m.bytes);
    }
};
} // namespace

void world_run(const Plan& p, const std::string& profile, Ctx& c)
{
    World w(c, profile);
    w.run(p);
}

// --------------------------------------------------------------------------------------------------------- generator
Plan world_gen(uint64_t seed, const std::string& profile)
{
    Rng  r(hash64(seed, hash_str(profile)));
    Plan p;
    auto& R   = registry();
    auto  add = [&](const char* n, std::vector<long long> a) { p.push_back(Op{n, std::move(a)}); };
    bool  stream = profile == "C03" || (profile != "C01" && profile != "C05" && r.chance(1, 2));
    bool  corrupting = profile == "C05" || (profile == "C06" && r.chance(1, 2));
    bool  cutting    = profile == "C03" || profile == "C06";
    bool  skew = profile == "C07";
    long long links = 1 + (long long)r.below(2);
    for (long long l = 0; l < links; l++)
    {
        add("link", {l, stream ? 0 : 1, profile == "C02" && r.chance(1, 2) ? 1 : 0});
        if (stream)
        {
            static const long long mc[] = {1, 2, 3, 8, 40, 300, 3000};
            add("frag", {l, (long long)r.below(1000000), mc[r.below(7)]});
            if (cutting) for (size_t n = r.below(4); n--;) add("cut", {l, (long long)r.below(r.chance(1, 2) ? 60 : 1500)});
        }
    }
    if (profile == "C01") add("tx", {(long long)(r.chance(1, 2) ? 40 + r.below(400) : 20000), (long long)(1 + r.below(60))});
    // few types per run, so that objects are reused for several messages
    std::vector<size_t> pool;
    for (size_t n = 1 + r.below(4); n--;)
    {
        size_t t = r.below(R.size());
        for (int k = 0; k < 2 && R[t].use.body->kind < K_SEQ; k++) t = r.below(R.size());
        if (skew) do t = r.below(R.size()); while (R[t].name.compare(0, 6, "SimExt") != 0);
        pool.push_back(t);
    }
    int       max_size = (int)(r.chance(1, 12) ? 9 : 1 + r.below(7));
    long long n = 1 + (long long)r.below(profile == "C01" ? 3 : 9), at = 0;
    bool      objops = profile == "C06" || profile == "C09";
    for (long long id = 0; id < n; id++)
    {
        at += (long long)r.below(900);
        size_t    t = pool[r.below(pool.size())];
        long long foreign = 0;
        if (profile == "C04") foreign = r.chance(1, 8) ? 1 : 2;
        else if (profile == "C07") foreign = r.chance(1, 2) ? 0 : r.chance(1, 2) ? 3 : 4;
        else if (profile == "C02" || profile == "C06" || profile == "C05") foreign = r.chance(1, 3) ? (long long)(1 + r.below(2)) : 0;
        else if (profile == "C03") foreign = r.chance(1, 6) ? 2 : 0;
        add("msg", {id, at, (long long)r.below((uint64_t)links), (long long)t, (long long)r.below(1000000000), (long long)r.below((uint64_t)max_size + 1),
                    (long long)r.below(2048), (long long)r.below(4), foreign, (long long)(profile == "C06" ? 1 + r.below(2) : r.below(3)),
                    skew ? (long long)r.chance(5, 6) : 0});
        if (!stream)
        {
            if (r.chance(1, 5)) add("dup", {id, (long long)(1 + r.below(3)), (long long)r.below(2000)});
            if (r.chance(1, 5)) add("delay", {id, (long long)r.below(5000)});
            if (r.chance(1, 12)) add("drop", {id});
        }
        if (corrupting && r.chance(4, 5))
            for (size_t k = 1 + (r.chance(1, 4) ? r.below(3) : 0); k--;)
                switch (r.below(16))
                {
                case 0: add("flip", {id, (long long)r.below(r.chance(1, 2) ? 12 : 4000), (long long)r.below(8)}); break;
                case 1: add("set", {id, (long long)r.below(r.chance(1, 2) ? 12 : 4000), (long long)r.below(256)}); break;
                case 2: add("trunc", {id, (long long)r.below(r.chance(1, 2) ? 6 : 4000)}); break;
                case 3: add("ins", {id, (long long)r.below(4000), (long long)r.below(1000000), (long long)r.below(20)}); break;
                case 4: add("del", {id, (long long)r.below(4000), (long long)r.below(8)}); break;
                case 5: case 6: case 7: add("hdr", {id, (long long)r.below(500), (long long)r.below(4), (long long)r.below(6), (long long)r.below(256)}); break;
                case 8: add("splice", {id, (long long)r.below((uint64_t)n), (long long)r.below(4000), (long long)r.below(4000)}); break;
                case 9: if (r.chance(1, 3)) { add("fill", {id, (long long)r.below(1000000), (long long)r.below(60)}); break; } // fall through
                default: add("tree", {id, (long long)r.below(300), (long long)r.below(T_OPS), (long long)r.below(1000000)}); break;
                }
        if (objops) for (size_t k = r.below(5); k--;)
            add("obj", {at + (long long)r.below(3000), (long long)pool[r.below(pool.size())], (long long)r.below(8), (long long)(1 + r.below(3)), (long long)(1 + r.below(3)), (long long)r.below(1000000), (long long)r.below(7)});
    }
    // once the faults have ceased, intact messages are received by the same peers
    if (corrupting || cutting)
        for (long long id = n; id < n + 2; id++)
            add("msg", {id, at + 20000 + id * 300, (long long)r.below((uint64_t)links), (long long)pool[r.below(pool.size())], (long long)r.below(1000000000), (long long)r.below((uint64_t)max_size + 1),
                        (long long)r.below(2048), (long long)r.below(4), 0, 1 + (long long)r.below(2), 0});
    return p;
}

// ------------------------------------------------------------------------------------------------------------ probes
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
static bool dies(const std::function<void()>& f)
{
    pid_t p = fork();
    if (p == 0)
    {
        rlimit r = {8 << 20, 8 << 20};
        setrlimit(RLIMIT_STACK, &r);
        int n = open("/dev/null", O_WRONLY);
        dup2(n, 1);
        dup2(n, 2);
        f();
        _exit(0);
    }
    int s = 0;
    waitpid(p, &s, 0);
    return !(WIFEXITED(s) && WEXITSTATUS(s) == 0);
}
int world_probe(const std::string& name)
{
    if (name == "deep_nesting")
        for (auto& t : registry())
            if (t.name == "SimRec.Tree")
            {
                Bytes r; // written from its end: 200000 trees within each other
                for (int i = 0; i < 200000; i++)
                {
                    size_t n = r.size() + 3;
                    r.insert(r.end(), {1, 1, 2});
                    r.insert(r.end(), {(uint8_t)n, (uint8_t)(n >> 8), (uint8_t)(n >> 16), (uint8_t)(n >> 24), 0x84});
                    r.push_back(i == 199999 ? 0x30 : 0xa0);
                }
                // an INTEGER comes first: content is "value, left"; reversed it is appended last
                std::reverse(r.begin(), r.end());
                return dies([&] { Obj o(t); t.decode(o.p, r.data(), r.size(), 0); _exit(0); }) ? 1 : 0;
            }
    return 2;
}
