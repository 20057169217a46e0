// Neutral value tree, encoding tables and the independent reference BER codec. No fast_ber headers in here.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>
#include <utility>
#include <vector>

enum Kind { K_BOOL, K_INT, K_ENUM, K_REAL, K_NUL, K_STR, K_OID, K_GTIME, K_SEQ, K_SET, K_CHOICE, K_SEQOF, K_SETOF };
enum Presence { M_MANDATORY, M_OPTIONAL, M_DEFAULT };

struct Val
{
    long long            i = 0;
    double               d = 0;
    std::string          s;
    std::vector<Val>     kids;
    std::vector<int64_t> oid;
    int                  alt     = 0;     // selected alternative, or the form of a time (0 UTC, 1 civil)
    bool                 present = true;  // optional: has a value; default: set to something other than the default
    bool                 undef   = false; // reference decoder: octets to which the schema assigns no value
    std::string          str() const;
};
inline Val VI(long long x) { Val v; v.i = x; return v; }
inline Val VD(double x) { Val v; v.d = x; return v; }
inline Val VS(const char* x) { Val v; v.s = x; return v; }

struct TagN
{
    int     cls;
    int64_t num;
    bool    operator==(const TagN& o) const { return cls == o.cls && num == o.num; }
};
struct Body;
struct Use
{
    std::vector<TagN> tags; // outermost first, empty for an untagged choice
    const Body*       body = nullptr;
};
struct BField
{
    std::string name;
    Use         use;
    Presence    mode;
    Val         def;
};
struct Body
{
    Kind                                     kind   = K_NUL;
    bool                                     ext    = false;
    int                                      extpos = -1;
    int                                      univ   = 0;
    std::vector<BField>                      fields;
    Use                                      elem;
    std::vector<std::pair<std::string, int>> enums;
};

using Bytes = std::vector<uint8_t>;

// Deterministic pseudo random numbers: every choice is a function of the seed
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed ^ 0x5DEECE66D1234567ull)
    {
        s = next() ^ seed; // streams of neighbouring seeds must not overlap
        s = next();
    }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    long     range(long a, long b) { return a + (long)below((uint64_t)(b - a + 1)); }
    bool     chance(unsigned num, unsigned den) { return below(den) < num; }
};

// Values
Val         gen_value(const Use&, uint64_t seed, int size); // size 0 (minimal) .. 9
bool        val_equal(const Use&, const Val&, const Val&, std::string* where = nullptr);
std::string civil_text(int64_t unix_seconds, bool utc);
bool        has_real(const Use&, const Val&); // the value contains a REAL
bool        has_nan(const Use&, const Val&);
bool        has_valueless(const Use&, const Val&); // a choice without a value somewhere
bool        has_extension(const Use&, const Val&); // the value contains a place where unknown elements may be added
std::string hex(const uint8_t*, size_t);
inline std::string hex(const Bytes& b) { return hex(b.data(), b.size()); }
Bytes       unhex(const std::string&);

// Shortest definite-length encoding, members in the order of their definition
Bytes ref_encode(const Use&, const Val&);
// Another valid encoding of the same value, as a different implementation may choose. Forms used are added to `forms`
// (only those in `allow`; A_UNKNOWN: elements a newer version of an extensible type may have added)
Bytes ref_encode_alt(const Use&, const Val&, uint64_t seed, uint64_t& forms, uint64_t allow = ~(1ull << 7));
enum AltForm { A_LONG_LEN, A_PAD_LEN, A_SET_ORDER, A_EXPL_DEFAULT, A_BOOL, A_INT_PAD, A_REAL, A_UNKNOWN, A_COUNT };

struct RefDecode
{
    bool        ok     = false; // the octets carry this value (possibly only by a lenient reading)
    bool        strict = true;  // ... and any decoder has to accept them
    Val         val;
    std::string why;
    size_t      consumed = 0;
};
RefDecode ref_decode(const Use&, const uint8_t*, size_t);
// The value of the old schema contained in a value of the new one is found by decoding with the old tables

struct Tlv
{
    bool    ok = false, constructed = false, odd = false;
    int     cls = 0;
    int64_t num = 0;
    size_t  hl = 0, cl = 0;
};
Tlv  parse_tlv(const uint8_t*, size_t);
void put_tlv(Bytes& out, TagN tag, bool constructed, const Bytes& content, int pad_len = -1);
// The offsets of every header (identifier, length) octet at any level, for structure aware corruption
void collect_tlvs(const uint8_t*, size_t off, size_t len, std::vector<std::pair<size_t, Tlv>>& out, int depth = 0);
