// The conc world (C12): threads which encode, decode, copy, compare and print, with objects of their own and constant
// objects and octets they share. Real threads, of which one at a time may run; which one is decided before every basic
// block of library code and every access of it to memory other than its own stack. Each run happens in a fresh copy of
// the process, as does the same run without any interleaving; every operation has to have the same result in both.
#include "conclib.hpp"
#include "core.hpp"
#include "reg.hpp"

#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cxxabi.h>
#include <memory>
#include <pthread.h>
#include <semaphore.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>

#ifndef GROUPS
#error GROUPS
#endif
#define X(g) namespace g_##g { void register_types(); }
GROUPS
#undef X
void world_init()
{
#define X(g) g_##g::register_types();
    GROUPS
#undef X
}
extern "C" char __executable_start;

namespace
{
struct Access
{
    unsigned writers = 0, users = 0, n = 0;
    uint64_t pcs[16];
};
struct Word // of its own type, so that none of the library's code is used to record them
{
    uint64_t at;
};
struct Thread
{
    int                          id = 0;
    pthread_t                    handle{};
    sem_t                        go{};
    bool                         done = false;
    const void*                  waits = nullptr; // for a lock
    uint64_t                     points = 0, parked_at = 0;
    const char*                  lo = nullptr;
    const char*                  hi = nullptr; // stack
    std::vector<const Op*>       ops;
    std::vector<std::string>     out;
    std::map<uint64_t, unsigned> sw; // at its n-th point: switch
    std::map<size_t, Obj>        own;
    int                          at = -1; // operation
    uint64_t                     last = 0; // the library code it was at last
    std::vector<Word>            touched;  // memory which code that is not compiled here used since then
};
struct Sched
{
    bool                             serial = true; // no interleaving; memory accesses are recorded
    std::vector<std::unique_ptr<Thread>> th;
    std::unordered_map<uint64_t, Access> mem;
    std::set<uint64_t>               hot; // places which access memory another thread changes
    std::map<uint64_t, unsigned>     hit; // at the n-th passage of any of them: switch
    uint64_t                         hits = 0, points = 0, alone = 0, switches = 0, forced = 0, stalled = 0, blocked = 0;
    sem_t                            finished{};
    Ctx*                             c = nullptr;
    std::map<const void*, int>       busy;  // locks and guards: the thread which holds it
    std::map<const void*, std::set<int>> readers;
    int                              pipe = -1;
};
Sched*               S = nullptr;
thread_local Thread* self = nullptr;

[[noreturn]] void deliver();
std::string g_violation, g_kind;
[[noreturn]] void violated(const char* kind, const std::string& what)
{
    g_kind      = kind;
    g_violation = what;
    deliver();
}
Thread* pick(unsigned from)
{
    for (size_t i = 0; i < S->th.size(); i++)
    {
        Thread* t = S->th[(from + i) % S->th.size()].get();
        if (!t->done && !t->waits) return t;
    }
    return nullptr;
}
void run_thread(Thread* t, Thread* me)
{
    S->alone = 0;
    if (t->points < S->points && S->points - t->parked_at > 2000 && t->at >= 0) S->stalled++;
    if (me) me->parked_at = S->points;
    sem_post(&t->go);
    if (me)
        while (sem_wait(&me->go)) {}
}
void switch_to(unsigned want, const void* pc)
{
    Thread* t = pick(want);
    if (!t || t == self) return;
    S->switches++;
    uint64_t where = (uint64_t)((const char*)pc - &__executable_start);
    S->c->states.insert(hash64(where, (uint64_t)(self->id * 8 + t->id)));
    uint64_t x[3] = {(uint64_t)self->id, (uint64_t)t->id, self->points};
    S->c->mix(x, sizeof x);
    if (S->c->verbose) fprintf(stderr, "[%8llu] thread %d is preempted in its operation %d at its point %llu (%s+0x%llx); thread %d goes on\n", (unsigned long long)S->points, self->id, self->at, (unsigned long long)self->points, "sim_conc", (unsigned long long)where, t->id);
    run_thread(t, self);
}
void record(Thread* t, uint64_t pc, uint64_t word, bool write)
{
    Access& a = S->mem[word];
    a.users |= 1u << t->id;
    if (write) a.writers |= 1u << t->id;
    for (unsigned i = 0; i < a.n; i++) if (a.pcs[i] == pc) return;
    if (pc && a.n < 16) a.pcs[a.n++] = pc;
}
void point(const void* pc, const void* addr, bool write)
{
    Thread* t = self;
    if (!t || (addr && (const char*)addr >= t->lo && (const char*)addr < t->hi)) return;
    t->points++;
    S->points++;
    if (S->serial)
    {
        self = nullptr; // what is recorded is not recorded
        for (auto w : t->touched) record(t, (uint64_t)pc, w.at, false);
        t->touched.clear();
        t->last = (uint64_t)pc;
        if (addr) record(t, (uint64_t)pc, (uint64_t)addr >> 3, write);
        self = t;
        return;
    }
    if (S->hot.count((uint64_t)pc))
    {
        auto h = S->hit.find(++S->hits);
        if (h != S->hit.end()) { switch_to(h->second, pc); return; }
    }
    auto s = t->sw.find(t->points);
    if (s != t->sw.end()) { switch_to(s->second, pc); return; }
    if (++S->alone > 300000) { S->forced++; switch_to((unsigned)t->id + 1, pc); S->alone = 0; }
}
// Memory used by functions which are not compiled here: the places in the library just before and after are as interesting
void touch(const void* pc, const void* p, size_t n, bool write)
{
    Thread* t = self;
    if (!t || !n || ((const char*)p >= t->lo && (const char*)p < t->hi)) return;
    point(pc, p, write);
    if (!S->serial) return;
    self = nullptr; // what is recorded is not recorded
    for (uint64_t w = (uint64_t)p >> 3; w <= ((uint64_t)p + n - 1) >> 3 && w <= ((uint64_t)p >> 3) + 32; w++)
    {
        record(t, t->last, w, write);
        if (t->touched.size() < 256) t->touched.push_back(Word{w});
    }
    self = t;
}
// Another thread holds what this one needs
void block(const void* lock)
{
    Thread* t = self;
    S->blocked++;
    t->waits  = lock;
    Thread* n = pick((unsigned)t->id + 1);
    if (!n) violated("deadlock", "thread " + std::to_string(t->id) + " waits forever in operation " + std::to_string(t->at));
    S->switches++;
    run_thread(n, t);
}
void released(const void* lock)
{
    for (auto& t : S->th) if (t->waits == lock) t->waits = nullptr;
}
} // namespace

void sim_preempt(void* pc) { point(pc, nullptr, false); }
#define ACCESS(n, T)                                                                                      \
    extern "C" void __sanitizer_cov_load##n(T* p) { point(__builtin_return_address(0), p, false); }      \
    extern "C" void __sanitizer_cov_store##n(T* p) { point(__builtin_return_address(0), p, true); }
ACCESS(1, uint8_t) ACCESS(2, uint16_t) ACCESS(4, uint32_t) ACCESS(8, uint64_t) ACCESS(16, __uint128_t)
#undef ACCESS

// Memory functions
extern "C"
{
#define MEMORY(memcpy, memmove, memset)                                                                                                                    \
    void* __real_##memcpy(void*, const void*, size_t);                                                                                                    \
    void* __real_##memmove(void*, const void*, size_t);                                                                                                   \
    void* __real_##memset(void*, int, size_t);                                                                                                            \
    void* __wrap_##memcpy(void* d, const void* s, size_t n) { touch(__builtin_return_address(0), s, n, false); touch(__builtin_return_address(0), d, n, true); return __real_##memcpy(d, s, n); }                    \
    void* __wrap_##memmove(void* d, const void* s, size_t n) { touch(__builtin_return_address(0), s, n, false); touch(__builtin_return_address(0), d, n, true); return __real_##memmove(d, s, n); }                  \
    void* __wrap_##memset(void* d, int c, size_t n) { touch(__builtin_return_address(0), d, n, true); return __real_##memset(d, c, n); }
    MEMORY(memcpy, memmove, memset)
    MEMORY(__asan_memcpy, __asan_memmove, __asan_memset)
#undef MEMORY
    int __real_memcmp(const void*, const void*, size_t);
    size_t __real_strlen(const char*);
    int __real_vsnprintf(char*, size_t, const char*, va_list);
    int __wrap_memcmp(const void* a, const void* b, size_t n) { touch(__builtin_return_address(0), a, n, false); touch(__builtin_return_address(0), b, n, false); return __real_memcmp(a, b, n); }
    size_t __wrap_strlen(const char* s) { size_t n = __real_strlen(s); touch(__builtin_return_address(0), s, n, false); return n; }
    int __wrap_vsnprintf(char* d, size_t n, const char* f, va_list a)
    {
        int r = __real_vsnprintf(d, n, f, a);
        if (r > 0) touch(__builtin_return_address(0), d, std::min(n, (size_t)r), true);
        return r;
    }
    // functions with memory of their own
    tm* __real_gmtime(const time_t*);
    tm* __real_localtime(const time_t*);
    char* __real_asctime(const tm*);
    char* __real_ctime(const time_t*);
    char* __real_setlocale(int, const char*);
    tm* __wrap_gmtime(const time_t* t) { tm* r = __real_gmtime(t); if (r) touch(__builtin_return_address(0), r, sizeof *r, true); return r; }
    tm* __wrap_localtime(const time_t* t) { tm* r = __real_localtime(t); if (r) touch(__builtin_return_address(0), r, sizeof *r, true); return r; }
    char* __wrap_asctime(const tm* t) { char* r = __real_asctime(t); if (r) touch(__builtin_return_address(0), r, strlen(r), true); return r; }
    char* __wrap_ctime(const time_t* t) { char* r = __real_ctime(t); if (r) touch(__builtin_return_address(0), r, strlen(r), true); return r; }
    char* __wrap_setlocale(int c, const char* n)
    {
        static char shared;
        touch(__builtin_return_address(0), &shared, 1, n != nullptr);
        char* r = __real_setlocale(c, n);
        touch(__builtin_return_address(0), &shared, 1, n != nullptr);
        return r;
    }
    int __wrap_snprintf(char* d, size_t n, const char* f, ...)
    {
        va_list a;
        va_start(a, f);
        int r = __real_vsnprintf(d, n, f, a);
        va_end(a);
        if (r > 0) touch(__builtin_return_address(0), d, std::min(n, (size_t)r), true);
        return r;
    }
}
// Locks
extern "C"
{
    int __real_pthread_mutex_lock(pthread_mutex_t*);
    int __real_pthread_mutex_trylock(pthread_mutex_t*);
    int __real_pthread_mutex_unlock(pthread_mutex_t*);
    int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
    int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
    int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
    int __real_pthread_once(pthread_once_t*, void (*)());
    int __real___cxa_guard_acquire(uint64_t*);
    void __real___cxa_guard_release(uint64_t*);
    void __real___cxa_guard_abort(uint64_t*);
    int __real_sched_yield();
    int __real_nanosleep(const timespec*, timespec*);
    void __real__ZN4absl7debian35Mutex4LockEv(void*);
    bool __real__ZN4absl7debian35Mutex7TryLockEv(void*);
    void __real__ZN4absl7debian35Mutex6UnlockEv(void*);

    int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
    {
        if (!self) return __real_pthread_mutex_lock(m);
        point(__builtin_return_address(0), m, true);
        for (;;)
        {
            int r = __real_pthread_mutex_trylock(m);
            if (r != EBUSY) return r;
            block(m);
        }
    }
    int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
    {
        int r = __real_pthread_mutex_unlock(m);
        if (self) { released(m); point(__builtin_return_address(0), m, true); }
        return r;
    }
    int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m)
    {
        if (!self) return __real_pthread_rwlock_rdlock(m);
        for (;;)
        {
            int r = pthread_rwlock_tryrdlock(m);
            if (r != EBUSY) return r;
            block(m);
        }
    }
    int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m)
    {
        if (!self) return __real_pthread_rwlock_wrlock(m);
        for (;;)
        {
            int r = pthread_rwlock_trywrlock(m);
            if (r != EBUSY && r != EDEADLK) return r;
            block(m);
        }
    }
    int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m)
    {
        int r = __real_pthread_rwlock_unlock(m);
        if (self) { released(m); point(__builtin_return_address(0), m, true); }
        return r;
    }
    void __wrap__ZN4absl7debian35Mutex4LockEv(void* m)
    {
        if (!self) { __real__ZN4absl7debian35Mutex4LockEv(m); return; }
        point(__builtin_return_address(0), m, true);
        while (!__real__ZN4absl7debian35Mutex7TryLockEv(m)) block(m);
    }
    void __wrap__ZN4absl7debian35Mutex6UnlockEv(void* m)
    {
        __real__ZN4absl7debian35Mutex6UnlockEv(m);
        if (self) { released(m); point(__builtin_return_address(0), m, true); }
    }
    static void enter(const void* g, const char* what)
    {
        for (;;)
        {
            auto b = S->busy.find(g);
            if (b == S->busy.end()) break;
            if (b->second == self->id) violated("deadlock", std::string(what) + " waits for itself");
            block(g);
        }
    }
    int __wrap_pthread_once(pthread_once_t* o, void (*f)())
    {
        if (!self) return __real_pthread_once(o, f);
        enter(o, "a once-initialisation");
        S->busy[o] = self->id;
        int r;
        try { r = __real_pthread_once(o, f); } catch (...) { S->busy.erase(o); released(o); throw; }
        S->busy.erase(o);
        released(o);
        return r;
    }
    int __wrap___cxa_guard_acquire(uint64_t* g)
    {
        if (!self) return __real___cxa_guard_acquire(g);
        point(__builtin_return_address(0), g, true);
        if (*(volatile uint8_t*)g) return 0;
        enter(g, "the initialisation of a static object");
        int r = __real___cxa_guard_acquire(g);
        if (r) S->busy[g] = self->id;
        return r;
    }
    void __wrap___cxa_guard_release(uint64_t* g)
    {
        __real___cxa_guard_release(g);
        if (self) { S->busy.erase(g); released(g); point(__builtin_return_address(0), g, true); }
    }
    void __wrap___cxa_guard_abort(uint64_t* g)
    {
        __real___cxa_guard_abort(g);
        if (self) { S->busy.erase(g); released(g); }
    }
    int __wrap_sched_yield()
    {
        if (self && !S->serial) { switch_to((unsigned)self->id + 1, __builtin_return_address(0)); return 0; }
        return self ? 0 : __real_sched_yield();
    }
    int __wrap_nanosleep(const timespec* a, timespec* b)
    {
        if (self) { if (!S->serial) switch_to((unsigned)self->id + 1, __builtin_return_address(0)); return 0; }
        return __real_nanosleep(a, b);
    }
}

namespace
{
struct World
{
    std::vector<std::unique_ptr<Obj>>   shared;
    std::vector<Val>                    shared_val;
    std::vector<std::pair<size_t, std::unique_ptr<uint8_t[]>>> octets;
    std::vector<const TypeOps*>         octets_type;
};
World* W = nullptr;
const TypeOps& type_no(uint64_t n) { return registry()[n % registry().size()]; }

const char* const OPS[] = {"encode", "length", "copy", "compare", "print", "read", "decode", "build", "print own", "encode own", "move", "assign", "compare own", "octets", "value", "short"};
const size_t      N_OPS = sizeof OPS / sizeof *OPS;
std::string perform(Thread& t, const Op& o)
{
    uint64_t    k = (uint64_t)o.arg(1) % N_OPS, x = (uint64_t)o.arg(2), y = (uint64_t)o.arg(3), z = (uint64_t)o.arg(4);
    std::string name = OPS[k];
    auto        enc  = [](const Obj& q) { bool ok; Bytes b = q.bytes(&ok); return std::to_string(ok) + hex(b); };
    if (k <= 5 || k == 11 || k == 12 || k == 15)
    {
        if (W->shared.empty()) return "";
        const Obj& s = *W->shared[x % W->shared.size()];
        const Obj& r = *W->shared[y % W->shared.size()];
        switch (k)
        {
        case 0:
        {
            Bytes  b(s.t->encoded_length(s.p, (int)(z % 2)) + z % 7);
            size_t n  = 0;
            bool   ok = s.t->encode(s.p, b.data(), b.size(), n, (int)(z % 2));
            return std::to_string(ok) + hex(b.data(), ok ? std::min(n, b.size()) : 0);
        }
        case 1: return std::to_string(s.t->encoded_length(s.p, (int)(z % 2)));
        case 2: t.own[y % 4] = Obj(*s.t, s.t->copy(s.p)); return enc(t.own[y % 4]);
        case 3: return r.t == s.t ? std::to_string(s.t->equal(s.p, r.p)) + std::to_string(s.t->nequal(s.p, r.p)) : std::to_string(s.t->equal(s.p, s.p));
        case 4: return s.t->print(s.p);
        case 5: return s.val().str();
        case 11:
        {
            Obj& q = t.own[y % 4];
            if (q.p && q.t == s.t) s.t->assign(q.p, s.p);
            else t.own[y % 4] = Obj(*s.t, s.t->copy(s.p));
            return enc(t.own[y % 4]);
        }
        case 12:
        {
            Obj& q = t.own[y % 4];
            return q.p && q.t == s.t ? std::to_string(q.t->equal(q.p, s.p)) + std::to_string(q.t->equal(s.p, q.p)) : "";
        }
        default:
        {
            size_t want = s.t->encoded_length(s.p, 0), cap = want ? z % want : 0, n = 0;
            std::unique_ptr<uint8_t[]> b(new uint8_t[cap]);
            return std::to_string(s.t->encode(s.p, b.get(), cap, n, 0));
        }
        }
    }
    if (k == 6)
    {
        if (W->octets.empty()) return "";
        auto& b = W->octets[x % W->octets.size()];
        Obj   q(*W->octets_type[x % W->octets.size()]);
        bool  ok = q.t->decode(q.p, b.second.get(), b.first, (int)(z % 4));
        std::string r = std::to_string(ok) + (ok ? q.val().str() : "");
        t.own[y % 4] = std::move(q);
        return r;
    }
    if (k == 7)
    {
        const TypeOps& ty = W->shared.empty() || z % 3 == 0 ? type_no(x) : *W->shared[x % W->shared.size()]->t;
        Obj q(ty);
        ty.from_val(gen_value(ty.use, z, (int)(z % 6)), q.p, (int)(z % 1000));
        std::string r = enc(q);
        t.own[y % 4] = std::move(q);
        return r;
    }
    if (k == 13)
    {
        if (W->octets.empty()) return "";
        auto& b = W->octets[x % W->octets.size()];
        return conc_octets(b.second.get(), b.first, (int)(z % (uint64_t)CONC_OCTETS));
    }
    if (k == 14) return conc_value(z, (int)(x % (uint64_t)CONC_VALUES));
    Obj& q = t.own[y % 4];
    if (!q.p) return "";
    if (k == 8) return q.t->print(q.p);
    if (k == 9) return enc(q);
    Obj n(*q.t, q.t->move(q.p));
    t.own[y % 4] = std::move(n);
    return enc(t.own[y % 4]);
}
void* thread_main(void* p)
{
    Thread& t = *(Thread*)p;
    pthread_attr_t a;
    void*          lo;
    size_t         n;
    pthread_getattr_np(pthread_self(), &a);
    pthread_attr_getstack(&a, &lo, &n);
    pthread_attr_destroy(&a);
    t.lo = (const char*)lo;
    t.hi = t.lo + n;
    while (sem_wait(&t.go)) {}
    self = &t;
    for (auto* o : t.ops)
    {
        t.at++;
        std::string r;
        try { r = perform(t, *o); }
        catch (const std::exception& e) { r = std::string("exception ") + e.what(); }
        catch (...) { r = "exception"; }
        t.out.push_back(r);
    }
    t.own.clear();
    self   = nullptr;
    t.done = true;
    Thread* next = pick((unsigned)t.id + 1);
    if (next) run_thread(next, nullptr);
    else
    {
        for (auto& u : S->th) if (!u->done) violated("deadlock", "thread " + std::to_string(u->id) + " waits forever in operation " + std::to_string(u->at));
        sem_post(&S->finished);
    }
    return nullptr;
}
// ---- what a copy of the process tells the one which started it
void put_u64(std::string& s, uint64_t x) { s.append((const char*)&x, 8); }
void put_str(std::string& s, const std::string& x) { put_u64(s, x.size()); s += x; }
struct In
{
    const std::string& s;
    size_t             at = 0;
    uint64_t u64() { if (at + 8 > s.size()) { at = s.size(); return 0; } uint64_t x; memcpy(&x, &s[at], 8); at += 8; return x; }
    std::string str() { size_t n = (size_t)u64(); if (at + n > s.size()) n = s.size() - at; std::string x = s.substr(at, n); at += n; return x; }
};
[[noreturn]] void deliver()
{
    std::string s;
    self = nullptr;
    put_str(s, g_kind);
    put_str(s, g_violation);
    put_u64(s, S->th.size());
    for (auto& t : S->th) { put_u64(s, t->out.size()); for (auto& o : t->out) put_str(s, o); }
    std::set<uint64_t> hot;
    uint64_t shared = 0;
    if (S->serial)
        for (auto& m : S->mem)
            if (m.second.writers && (m.second.users & (m.second.users - 1))) { shared++; hot.insert(m.second.pcs, m.second.pcs + m.second.n); }
    put_u64(s, hot.size());
    for (auto h : hot) put_u64(s, h);
    put_u64(s, shared);
    put_u64(s, S->c->hash);
    put_u64(s, S->c->states.size());
    for (auto h : S->c->states) put_u64(s, h);
    for (uint64_t x : {S->points, S->switches, S->hits, S->forced, S->stalled, S->blocked}) put_u64(s, x);
    fflush(stderr);
    for (size_t at = 0; at < s.size();)
    {
        ssize_t n = write(S->pipe, s.data() + at, s.size() - at);
        if (n <= 0) break;
        at += (size_t)n;
    }
    _exit(0);
}
// One execution, in a copy of the process
std::string execute(const Plan& p, Ctx& c, bool serial, const std::set<uint64_t>& hot)
{
    int fd[2];
    if (pipe(fd)) abort();
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0)
    {
        close(fd[0]);
        Ctx   mine;
        Sched s;
        World w;
        mine.verbose = c.verbose && !serial;
        S            = &s;
        W            = &w;
        s.serial     = serial;
        s.pipe       = fd[1];
        s.c          = &mine;
        s.hot        = hot;
        g_alloc.keep = serial; // so that no memory is used by more than one thread by way of the heap
        sem_init(&s.finished, 0, 0);
        unsigned threads = 0;
        for (auto& o : p)
        {
            if (o.name == "threads") threads = 2 + (unsigned)((uint64_t)o.arg(0) % 4);
            else if (o.name == "shared")
            {
                const TypeOps& t = type_no((uint64_t)o.arg(0));
                w.shared.emplace_back(new Obj(t));
                w.shared_val.push_back(gen_value(t.use, (uint64_t)o.arg(1), (int)((uint64_t)o.arg(2) % 9)));
                t.from_val(w.shared_val.back(), w.shared.back()->p, (int)(o.arg(1) % 1000));
            }
            else if (o.name == "octets")
            {
                const TypeOps& t = type_no((uint64_t)o.arg(0));
                Val            v = gen_value(t.use, (uint64_t)o.arg(1), (int)((uint64_t)o.arg(2) % 9));
                uint64_t       forms = 0;
                Bytes          b = o.arg(3) % 3 ? ref_encode(t.use, v) : ref_encode_alt(t.use, v, (uint64_t)o.arg(1), forms);
                if (o.arg(3) % 5 == 4 && !b.empty()) b[(size_t)((uint64_t)o.arg(4) % b.size())] ^= (uint8_t)(1 + (uint64_t)o.arg(5) % 255);
                if (o.arg(3) % 7 == 6 && !b.empty()) b.resize((size_t)((uint64_t)o.arg(4) % b.size()));
                w.octets.emplace_back(b.size(), std::unique_ptr<uint8_t[]>(new uint8_t[b.size()]));
                std::copy(b.begin(), b.end(), w.octets.back().second.get());
                w.octets_type.push_back(&t);
            }
        }
        if (!threads) threads = 2;
        for (unsigned i = 0; i < threads; i++)
        {
            s.th.emplace_back(new Thread());
            s.th[i]->id = (int)i;
            sem_init(&s.th[i]->go, 0, 0);
        }
        for (auto& o : p)
        {
            if (o.name == "op") s.th[(size_t)((uint64_t)o.arg(0) % threads)]->ops.push_back(&o);
            if (serial) continue;
            if (o.name == "switch") s.th[(size_t)((uint64_t)o.arg(0) % threads)]->sw[(uint64_t)o.arg(1)] = (unsigned)((uint64_t)o.arg(2) % threads);
            if (o.name == "hit") s.hit[(uint64_t)o.arg(0)] = (unsigned)((uint64_t)o.arg(1) % threads);
        }
        sim_step_limit(100000000);
        for (auto& t : s.th) if (pthread_create(&t->handle, nullptr, thread_main, t.get())) _exit(98);
        sem_post(&s.th[0]->go);
        while (sem_wait(&s.finished)) {}
        deliver();
    }
    close(fd[1]);
    std::string r;
    char        b[65536];
    for (;;)
    {
        ssize_t n = read(fd[0], b, sizeof b);
        if (n <= 0) break;
        r.append(b, (size_t)n);
    }
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFSIGNALED(st)) { fprintf(stderr, "SIM-FATAL signal %d: in %s execution\n", WTERMSIG(st), serial ? "a serial" : "an interleaved"); fflush(stderr); _exit(92); }
    if (WEXITSTATUS(st)) { fflush(stderr); _exit(WEXITSTATUS(st)); }
    return r;
}
struct Result
{
    std::string                           kind, text;
    std::vector<std::vector<std::string>> out;
    std::set<uint64_t>                    hot;
    uint64_t                              shared = 0, hash = 0, points = 0, switches = 0, hits = 0, forced = 0, stalled = 0, blocked = 0;
    std::set<uint64_t>                    states;
};
Result parse(const std::string& s)
{
    Result r;
    In     i{s};
    r.kind = i.str();
    r.text = i.str();
    r.out.resize((size_t)std::min<uint64_t>(i.u64(), 16));
    for (auto& t : r.out) { t.resize((size_t)std::min<uint64_t>(i.u64(), 1000)); for (auto& o : t) o = i.str(); }
    for (uint64_t n = i.u64(); n-- && i.at < s.size();) r.hot.insert(i.u64());
    r.shared = i.u64();
    r.hash   = i.u64();
    for (uint64_t n = i.u64(); n-- && i.at < s.size();) r.states.insert(i.u64());
    for (uint64_t* x : {&r.points, &r.switches, &r.hits, &r.forced, &r.stalled, &r.blocked}) *x = i.u64();
    return r;
}
} // namespace

Plan world_gen(uint64_t seed, const std::string&)
{
    Rng  r(seed);
    Plan p;
    long threads = r.chance(1, 2) ? 2 : r.range(2, 5);
    p.push_back(Op{"threads", {threads - 2}});
    // a few types, so that threads do meet
    std::vector<long long> types;
    for (long n = r.range(1, 2); n--;) types.push_back((long long)r.below(registry().size()));
    auto type = [&]() { return types[r.below(types.size())]; };
    for (long n = r.range(1, 3); n--;) p.push_back(Op{"shared", {type(), (long long)r.below(1000000), (long long)r.below(r.chance(1, 6) ? 9 : 5)}});
    for (long n = r.range(1, 2); n--;) p.push_back(Op{"octets", {type(), (long long)r.below(1000000), (long long)r.below(5), (long long)r.below(105), (long long)r.below(10000), (long long)r.below(255)}});
    long kinds = r.range(1, 4); // the operations of one run are of few kinds
    std::vector<std::pair<long long, long long>> ks;
    for (long i = 0; i < kinds; i++) ks.emplace_back(r.chance(1, 3) ? 14 : (long long)r.below(N_OPS), (long long)r.below(1000));
    for (long t = 0; t < threads; t++)
        for (long n = r.range(1, 4); n--;)
        {
            auto k = ks[r.below(ks.size())];
            p.push_back(Op{"op", {t, k.first, r.chance(3, 4) ? k.second : (long long)r.below(1000), (long long)r.below(4), (long long)r.below(1000000)}});
        }
    // the schedule
    double scale = 40;
    for (uint64_t k = r.below(10); k--;) scale *= 2;
    for (long t = 0; t < threads; t++)
    {
        double at = 0;
        for (long n = r.chance(1, 3) ? r.range(1, 3) : r.range(3, 30); n--;)
        {
            at += 1 + (double)r.below((uint64_t)(r.chance(1, 4) ? scale / 10 + 2 : scale));
            p.push_back(Op{"switch", {t, (long long)at, (long long)r.below((uint64_t)threads)}});
        }
    }
    long long at = 0;
    for (long n = r.range(0, 25); n--;) { at += 1 + (long long)r.below(r.chance(1, 3) ? 30 : 4); p.push_back(Op{"hit", {at, (long long)r.below((uint64_t)threads)}}); }
    return p;
}
void world_run(const Plan& p, const std::string&, Ctx& c)
{
    Result a = parse(execute(p, c, true, {}));
    if (!a.kind.empty()) c.fail(a.kind.c_str(), "without any interleaving: %s", a.text.c_str());
    Result b = parse(execute(p, c, false, a.hot));
    c.now += (int64_t)b.points;
    c.events += b.switches;
    c.mix(b.hash);
    c.mix(b.points);
    for (auto h : b.states) c.state(h);
    c.tick("points", b.points);
    if (b.switches) c.tick("fault_preempted", b.switches);
    if (b.stalled) c.tick("fault_stalled", b.stalled);
    if (b.blocked) c.tick("waited_for_a_lock", b.blocked);
    if (b.forced) c.tick("forced_switches", b.forced);
    if (a.shared) c.tick("conflicting_addresses", a.shared);
    if (b.hits) c.tick("conflicting_accesses", b.hits);
    c.ev("%llu points, %llu switches", (unsigned long long)b.points, (unsigned long long)b.switches);
    if (!b.kind.empty()) c.fail(b.kind.c_str(), "%s", b.text.c_str());
    std::vector<std::vector<const Op*>> ops(a.out.size());
    for (auto& o : p) if (o.name == "op" && !ops.empty()) ops[(size_t)((uint64_t)o.arg(0) % ops.size())].push_back(&o);
    for (size_t t = 0; t < a.out.size(); t++)
        for (size_t i = 0; i < a.out[t].size(); i++)
        {
            c.tick("operations");
            const std::string& x = a.out[t][i];
            std::string        y = t < b.out.size() && i < b.out[t].size() ? b.out[t][i] : "nothing";
            c.mix(x.data(), x.size());
            if (x != y)
            {
                size_t d = 0;
                while (d < x.size() && d < y.size() && x[d] == y[d]) d++;
                d = d > 20 ? d - 20 : 0;
                c.fail("interference", "thread %zu, operation %zu (%s): got \"...%s\", alone \"...%s\"", t, i, OPS[(uint64_t)ops[t][i]->arg(1) % N_OPS], y.substr(d, 200).c_str(), x.substr(d, 200).c_str());
            }
        }
}
