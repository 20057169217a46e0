#include "core.hpp"
#include "reg.hpp"

#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <malloc.h>
#include <new>
#include <sstream>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>

std::string plan_text(const Plan& p)
{
    std::string s;
    for (auto& o : p)
    {
        s += o.name;
        for (auto x : o.a) s += " " + std::to_string(x);
        s += "\n";
    }
    return s;
}
Plan plan_parse(const std::string& t)
{
    Plan               p;
    std::istringstream in(t);
    std::string        line;
    while (std::getline(in, line))
    {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream l(line);
        Op                 o;
        l >> o.name;
        std::string x;
        while (l >> x) o.a.push_back(strtoll(x.c_str(), nullptr, 10));
        p.push_back(o);
    }
    return p;
}
void Ctx::mix(const void* p, size_t n)
{
    for (size_t i = 0; i < n; i++) { hash ^= ((const uint8_t*)p)[i]; hash *= 1099511628211ull; }
}
void Ctx::ev(const char* fmt, ...)
{
    char    b[700];
    va_list a;
    va_start(a, fmt);
    int n = vsnprintf(b, sizeof b, fmt, a);
    va_end(a);
    if (n > (int)sizeof b - 1) n = sizeof b - 1;
    mix((uint64_t)now);
    mix(b, (size_t)n);
    if (verbose) fprintf(stderr, "[%8lld] %s\n", (long long)now, b);
}
void Ctx::fail(const char* kind, const char* fmt, ...)
{
    char    b[1500];
    va_list a;
    va_start(a, fmt);
    vsnprintf(b, sizeof b, fmt, a);
    va_end(a);
    throw Violation{kind, b};
}

// ------------------------------------------------------------------------------------------------------------ steps
static uint64_t g_steps = 0, g_limit = 0;
extern "C" uint64_t sim_steps() { return g_steps; }
extern "C" void     sim_step_limit(uint64_t n) { g_limit = n ? g_steps + n : 0; }
extern "C" void     __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { for (; a < b; a++) *a = 1; }
__attribute__((weak)) void sim_preempt(void*) {}
extern "C" void     __sanitizer_cov_trace_pc_guard(uint32_t*)
{
    g_steps++;
    if (g_limit && g_steps > g_limit)
    {
        static const char m[] = "SIM-FATAL step-limit: too many steps for the length of the input\n";
        (void)!write(2, m, sizeof m - 1);
        _exit(97);
    }
    sim_preempt(__builtin_return_address(0));
}

// ------------------------------------------------------------------------------------------------------- allocations
AllocState g_alloc;
AllocScope::AllocScope(uint64_t fail_at, uint64_t fail_len, int64_t limit)
{
    g_alloc.on = true; g_alloc.count = 0; g_alloc.fail_at = fail_at; g_alloc.fail_len = fail_len; g_alloc.failed = 0;
    g_alloc.peak = g_alloc.live_bytes; g_alloc.limit = limit ? g_alloc.live_bytes + limit : 0;
}
void AllocScope::stop()
{
    if (!active) return;
    active = false;
    n = g_alloc.count; f = g_alloc.failed;
    g_alloc.on = false; g_alloc.limit = 0; g_alloc.fail_at = 0;
}
// The objects allocated within scopes: an open addressing table in static storage
static void*        g_owned[1 << 20];
static void* const  GONE = (void*)1;
static size_t       owned_slot(void* p) { return (size_t)(((uint64_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 44); }
static void own(void* p)
{
    if (g_alloc.owned > (1 << 19)) return; // full: not counted
    size_t i = owned_slot(p);
    while (g_owned[i] && g_owned[i] != GONE) i = (i + 1) & ((1 << 20) - 1);
    g_owned[i] = p;
    g_alloc.owned++;
}
static void disown(void* p)
{
    if (!g_alloc.owned) return;
    for (size_t i = owned_slot(p); g_owned[i]; i = (i + 1) & ((1 << 20) - 1))
        if (g_owned[i] == p) { g_owned[i] = g_owned[(i + 1) & ((1 << 20) - 1)] ? GONE : nullptr; g_alloc.owned--; return; }
}
static void* do_alloc(size_t n, bool nothrow)
{
    if (g_alloc.on)
    {
        g_alloc.count++;
        if (g_alloc.fail_at && g_alloc.count >= g_alloc.fail_at && g_alloc.count < g_alloc.fail_at + g_alloc.fail_len)
        {
            if (g_alloc.failed == 0 && g_alloc.probe)
            {
                g_alloc.on = false;
                bool go    = g_alloc.probe();
                g_alloc.on = true;
                if (!go) { g_alloc.fail_at = 0; goto granted; }
            }
            g_alloc.failed++;
            if (nothrow) return nullptr;
            throw std::bad_alloc();
        }
        if (n > (1u << 30))
        {
            static const char m[] = "SIM-FATAL memory-limit: absurd allocation\n";
            (void)!write(2, m, sizeof m - 1);
            _exit(96);
        }
    }
granted:
    if (g_alloc.place)
    {
        if (void* q = g_alloc.place(n)) return q;
        if (nothrow) return nullptr;
        throw std::bad_alloc();
    }
    void* p = malloc(n ? n : 1);
    if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    if (g_alloc.on) own(p);
    g_alloc.live++;
    g_alloc.live_bytes += (int64_t)malloc_usable_size(p);
    if (g_alloc.on)
    {
        g_alloc.peak = std::max(g_alloc.peak, g_alloc.live_bytes);
        if (g_alloc.limit && g_alloc.live_bytes > g_alloc.limit)
        {
            static const char m[] = "SIM-FATAL memory-limit: too much memory for the length of the input\n";
            (void)!write(2, m, sizeof m - 1);
            _exit(96);
        }
    }
    return p;
}
static void do_free(void* p)
{
    if (!p || g_alloc.keep) return;
    disown(p);
    g_alloc.live--;
    g_alloc.live_bytes -= (int64_t)malloc_usable_size(p);
    free(p);
}
void* operator new(size_t n) { return do_alloc(n, false); }
void* operator new[](size_t n) { return do_alloc(n, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return do_alloc(n, true); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return do_alloc(n, true); } catch (...) { return nullptr; } }
void  operator delete(void* p) noexcept { do_free(p); }
void  operator delete[](void* p) noexcept { do_free(p); }
void  operator delete(void* p, size_t) noexcept { do_free(p); }
void  operator delete[](void* p, size_t) noexcept { do_free(p); }
void  operator delete(void* p, const std::nothrow_t&) noexcept { do_free(p); }
void  operator delete[](void* p, const std::nothrow_t&) noexcept { do_free(p); }

std::vector<TypeOps>& registry()
{
    static std::vector<TypeOps> r;
    return r;
}

// ----------------------------------------------------------------------------------------------------------- driver
static double wall()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double)t.tv_sec + (double)t.tv_nsec * 1e-9;
}
static int run_plan(const Plan& p, const std::string& profile, Ctx& c, Violation& v)
{
    try { world_run(p, profile, c); }
    catch (const Violation& x) { v = x; c.ev("VIOLATION %s %s", x.kind.c_str(), x.text.c_str()); return 1; }
    return 0;
}
__attribute__((weak)) int world_probe(const std::string&) { return 2; }
// The C++ runtime ends a process which throws where it must not
static void on_terminate()
{
    static const char m[] = "SIM-FATAL terminate\n";
    (void)!write(2, m, sizeof m - 1);
    _exit(95);
}
int main(int argc, char** argv)
{
    std::set_terminate(on_terminate);
    std::cerr.rdbuf(nullptr); // the library reports failures to decode there
    std::string cmd = argc > 1 ? argv[1] : "", profile = argc > 2 ? argv[2] : "";
    world_init();
    if (cmd == "gen")
    {
        std::cout << plan_text(world_gen(strtoull(argv[3], nullptr, 10), profile));
        return 0;
    }
    if (cmd == "run")
    {
        std::ifstream     f(argv[3]);
        std::stringstream s;
        s << f.rdbuf();
        // several plans, separated by "next", are executed one after another in this process
        std::vector<Plan> plans(1);
        for (auto& o : plan_parse(s.str())) { if (o.name == "next") plans.emplace_back(); else plans.back().push_back(o); }
        int      r = 0;
        uint64_t h = 0;
        for (size_t i = 0; i < plans.size() && !r; i++)
        {
            Ctx c;
            c.verbose = argc > 4 && std::string(argv[4]) == "-v";
            Violation v;
            r = run_plan(plans[i], profile, c, v);
            if (r) printf("VIOLATED %s | %s\n", v.kind.c_str(), v.text.c_str());
            h = i ? hash64(h, c.hash) : c.hash;
        }
        printf("HASH %016llx\n", (unsigned long long)h);
        return r;
    }
    if (cmd == "probe") return world_probe(profile);
    if (cmd == "hashes") // hashes PROFILE FIRST STRIDE COUNT
    {
        uint64_t first = strtoull(argv[3], nullptr, 10), stride = strtoull(argv[4], nullptr, 10), n = strtoull(argv[5], nullptr, 10);
        for (uint64_t i = 0; i < n; i++)
        {
            Ctx       c;
            Violation v;
            run_plan(world_gen(first + i * stride, profile), profile, c, v);
            printf("%llu %016llx\n", (unsigned long long)(first + i * stride), (unsigned long long)c.hash);
        }
        return 0;
    }
    if (cmd == "batch") // batch PROFILE FIRST STRIDE COUNT SECONDS STATUSFILE STATESFILE
    {
        uint64_t first = strtoull(argv[3], nullptr, 10), stride = strtoull(argv[4], nullptr, 10), n = strtoull(argv[5], nullptr, 10);
        double   end = wall() + atof(argv[6]);
        int      fd  = open(argv[7], O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (ftruncate(fd, 64)) return 3;
        auto* status = (volatile uint64_t*)mmap(nullptr, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        Ctx      all;
        std::set<uint64_t> distinct;
        uint64_t runs = 0, simtime = 0, events = 0, ops = 0, hash = 1;
        for (; runs < n && (runs < 1 || wall() < end); runs++)
        {
            uint64_t seed = first + runs * stride;
            status[0]     = seed;
            status[1]     = runs;
            Plan p = world_gen(seed, profile);
            Ctx  c;
            c.states.swap(all.states);
            Violation v;
            int       r = run_plan(p, profile, c, v);
            c.states.swap(all.states);
            for (auto& k : c.count) all.count[k.first] += k.second;
            simtime += (uint64_t)c.now;
            events += c.events;
            ops += p.size();
            hash = hash64(hash, c.hash);
            if (c.nontrivial) distinct.insert(c.hash);
            // determinism is sampled continuously: the same plan must produce the same event log
            if (r == 0 && runs % 50 == 7)
            {
                Ctx       d;
                Violation w;
                r = run_plan(world_gen(seed, profile), profile, d, w);
                if (r) v = w; // what it left behind in the process matters
                else if (d.hash != c.hash)
                {
                    printf("UNEQUAL %llu\n", (unsigned long long)seed);
                    all.count["replayed_unequally"]++;
                }
                else all.count["replayed_identically"]++;
            }
            if (r)
            {
                printf("FAIL %llu %s | %s\n", (unsigned long long)seed, v.kind.c_str(), v.text.c_str());
                status[2] = 1;
                break;
            }
        }
        status[3] = 1; // finished normally
        std::ofstream sf(argv[8], std::ios::binary);
        for (auto h : all.states) sf.write((const char*)&h, 8);
        std::ofstream rf(argv[8] + std::string(".runs"), std::ios::binary);
        for (auto h : distinct) rf.write((const char*)&h, 8);
        printf("STATS {\"runs\": %llu, \"sim_us\": %llu, \"events\": %llu, \"ops\": %llu, \"steps\": %llu, \"hash\": \"%016llx\", \"counters\": {",
               (unsigned long long)runs, (unsigned long long)simtime, (unsigned long long)events, (unsigned long long)ops,
               (unsigned long long)g_steps, (unsigned long long)hash);
        bool comma = false;
        for (auto& k : all.count) { printf("%s\"%s\": %llu", comma ? ", " : "", k.first.c_str(), (unsigned long long)k.second); comma = true; }
        printf("}}\n");
        return status[2] ? 1 : 0;
    }
    fprintf(stderr, "usage\n");
    return 3;
}
