// The simulator's core: plans, the event log, counters, the event queue and the driver.
//
// A run is described completely by its plan, a text file with one operation or fault per line. `gen SEED` derives a plan
// from a seed; executing a plan uses no randomness which is not a function of the arguments of its lines. Any subset
// of the lines of a plan is a valid plan, which is what minimisation relies upon.
#pragma once
#include "val.hpp"

#include <functional>
#include <map>
#include <queue>
#include <set>

struct Op
{
    std::string            name;
    std::vector<long long> a; // numeric arguments
    long long              arg(size_t i, long long d = 0) const { return i < a.size() ? a[i] : d; }
};
using Plan = std::vector<Op>;
std::string plan_text(const Plan&);
Plan        plan_parse(const std::string&);

struct Violation
{
    std::string kind, text;
};

struct Ctx
{
    uint64_t                        hash    = 1469598103934665603ull;
    bool                            verbose = false;
    std::map<std::string, uint64_t> count;
    std::set<uint64_t>              states;
    int64_t                         now    = 0; // simulated microseconds
    uint64_t                        events = 0;

    void ev(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    void mix(const void* p, size_t n);
    void mix(uint64_t x) { mix(&x, sizeof x); }
    bool nontrivial = false; // a fault or an unusual form was met
    void tick(const char* what, uint64_t n = 1)
    {
        count[what] += n;
        if (!strncmp(what, "fault_", 6) || !strncmp(what, "alt_", 4) || !strncmp(what, "skew_", 5)) nontrivial = true;
    }
    void state(uint64_t h) { if (states.size() < 2000000) states.insert(h); }
    [[noreturn]] void fail(const char* kind, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
};
inline uint64_t hash64(uint64_t a, uint64_t b)
{
    uint64_t z = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
inline uint64_t hash_str(const std::string& s)
{
    uint64_t h = 7;
    for (char c : s) h = hash64(h, (uint8_t)c);
    return h;
}

// Discrete events in simulated time
struct Queue
{
    struct Ev
    {
        int64_t               at;
        uint64_t              seq;
        std::function<void()> run;
        bool                  operator<(const Ev& o) const { return at != o.at ? at > o.at : seq > o.seq; }
    };
    std::priority_queue<Ev> q;
    uint64_t                seq = 0;
    void at(int64_t t, std::function<void()> f) { q.push(Ev{t, seq++, std::move(f)}); }
    void run(Ctx& c, uint64_t max_events)
    {
        while (!q.empty())
        {
            Ev e = q.top();
            q.pop();
            if (++c.events > max_events) c.fail("livelock", "more than %llu events", (unsigned long long)max_events);
            if (e.at > c.now) c.now = e.at;
            e.run();
        }
    }
};

// Each world provides these
Plan world_gen(uint64_t seed, const std::string& profile);
void world_run(const Plan&, const std::string& profile, Ctx&);
void world_init();
int  world_probe(const std::string& name); // 1: the known finding is still there

// ------------------------------------------------------------------------------------------------ allocation control
struct AllocState
{
    bool     on         = false; // count and fail allocations
    bool     keep       = false; // nothing is really freed
    uint64_t count      = 0;     // allocations since `on`
    uint64_t fail_at    = 0;     // fail the n-th allocation (1: the first), 0 never
    uint64_t fail_len   = 1;     // ... and the following ones, up to this many in total
    uint64_t failed     = 0;
    int64_t  live       = 0; // objects
    int64_t  live_bytes = 0;
    int64_t  peak       = 0;
    int64_t  limit      = 0; // bytes above which the process ends
    int64_t  owned      = 0; // objects allocated within a scope which are still alive
    void* (*place)(size_t) = nullptr; // takes the place of malloc; only together with keep
    bool (*probe)()     = nullptr; // asked before the first allocation of a scope fails: false, and none does
};
extern AllocState g_alloc;
struct AllocScope // operations on library objects run inside of such a scope
{
    explicit AllocScope(uint64_t fail_at = 0, uint64_t fail_len = 1, int64_t limit = 0);
    ~AllocScope() { stop(); }
    void stop();
    uint64_t count() const { return n; }
    uint64_t failed() const { return f; }
    uint64_t n = 0, f = 0;
    bool     active = true;
};
